From dd8c4e6a0109f576ba8b7dc3da816424894e3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:29 +0000
Subject: [PATCH 01/37] Model checking hooks: small bounds under
 FL2_MODEL_CHECK

---
 fast-lzma2.h | 4 ++++
 lzma2_dec.h  | 4 +++-
 lzma2_enc.h  | 4 ++++
 radix_mf.h   | 4 ++++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/fast-lzma2.h b/fast-lzma2.h
index 1ad31fe..97e52c9 100644
--- a/fast-lzma2.h
+++ b/fast-lzma2.h
@@ -450,7 +450,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuff
  *  the current parameters.
  * *******************************************************************************/
 
+#ifdef FL2_MODEL_CHECK        /* small bounds for exhaustive state exploration */
+#define FL2_DICTLOG_MIN      12
+#else
 #define FL2_DICTLOG_MIN      20
+#endif
 #define FL2_DICTLOG_MAX_32   27
 #define FL2_DICTLOG_MAX_64   30
 #define FL2_DICTLOG_MAX      ((unsigned)(sizeof(size_t) == 4 ? FL2_DICTLOG_MAX_32 : FL2_DICTLOG_MAX_64))
diff --git a/lzma2_dec.h b/lzma2_dec.h
index ba0c2e3..bdc77e5 100644
--- a/lzma2_dec.h
+++ b/lzma2_dec.h
@@ -209,7 +209,9 @@ typedef struct
     size_t unpack_size;
 } LZMA2_chunk;
 
-#if defined(FL2_DEBUG) && (FL2_DEBUG>=1)
+#if defined(FL2_MODEL_CHECK) /* small bounds for exhaustive state exploration */
+#  define LZMA2_MT_INPUT_SIZE 0x100
+#elif defined(FL2_DEBUG) && (FL2_DEBUG>=1)
 #  define LZMA2_MT_INPUT_SIZE 0x400
 #else
 #  define LZMA2_MT_INPUT_SIZE 0x40000
diff --git a/lzma2_enc.h b/lzma2_enc.h
index 6e7dcbb..8080658 100644
--- a/lzma2_enc.h
+++ b/lzma2_enc.h
@@ -19,7 +19,11 @@ extern "C" {
 #define kFastDistBits 12U
 
 #define LZMA2_END_MARKER '\0'
+#ifdef FL2_MODEL_CHECK /* small bounds for exhaustive state exploration */
+#define ENC_MIN_BYTES_PER_THREAD 0x200
+#else
 #define ENC_MIN_BYTES_PER_THREAD 0x1C000 /* Enough for 8 threads, 1 Mb dict, 2/16 overlap */
+#endif
 
 
 typedef struct LZMA2_ECtx_s LZMA2_ECtx;
diff --git a/radix_mf.h b/radix_mf.h
index f6ec88c..5ec581c 100644
--- a/radix_mf.h
+++ b/radix_mf.h
@@ -22,7 +22,11 @@ typedef struct FL2_matchTable_s FL2_matchTable;
 
 #define OVERLAP_FROM_DICT_SIZE(d, o) (((d) >> 4) * (o))
 
+#ifdef FL2_MODEL_CHECK /* small bounds for exhaustive state exploration */
+#define RMF_MIN_BYTES_PER_THREAD 256
+#else
 #define RMF_MIN_BYTES_PER_THREAD 1024
+#endif
 
 typedef struct
 {
-- 
2.43.0


From 3257c713607c66ab13be9a714b884499b6391700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 02/37] fix: FL2POOL_waitAll reported completion while jobs
 were queued or running

The unlocked early-out read the busy count and the queue position separately, so a
job popped between the two reads was taken for finished, and the result of a timed
wait ignored jobs not yet started and was read after the mutex was released.
---
 fl2_pool.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..d5e4bd2 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -174,8 +174,9 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
+    /* The queue state is only consistent while the mutex is locked */
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
     if (timeout != 0) {
@@ -186,8 +187,9 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    int const unfinished = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return unfinished;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From e2fad860400db6ffa855f292593cb01ce9e8b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 03/37] fix: LZMA decoder read beyond the end of its input on
 corrupt data

In finish mode the decoder started symbols up to the last input byte, and a
symbol can need LZMA_REQUIRED_INPUT_MAX bytes. in_size then underflowed and
decoding continued past the end of the source buffer.
---
 lzma2_dec.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..c66f8b6 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -862,21 +862,31 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
         if (p->need_init_state)
             LZMA_initStateReal(p);
 
-        const BYTE *buf_limit;
-        if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
-        }
-        else {
-            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
-                return LZMA_STATUS_NEEDS_MORE_INPUT;
-            }
-            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
+        size_t processed;
+        if (in_size > LZMA_REQUIRED_INPUT_MAX) {
+            p->buf = src;
+
+            CHECK_F(LZMA_decodeReal2(p, dic_limit, src + in_size - LZMA_REQUIRED_INPUT_MAX));
+
+            processed = (size_t)(p->buf - src);
         }
-        p->buf = src;
+        else if (finish_mode == LZMA_FINISH_END) {
+            /* A symbol in a corrupt chunk may extend beyond the end of the input, so decode the tail from a padded copy */
+            BYTE tail[LZMA_REQUIRED_INPUT_MAX * 2 + 1];
 
-        CHECK_F(LZMA_decodeReal2(p, dic_limit, buf_limit));
+            memset(tail, 0, sizeof(tail));
+            memcpy(tail, src, in_size);
+            p->buf = tail;
 
-        size_t const processed = (size_t)(p->buf - src);
+            CHECK_F(LZMA_decodeReal2(p, dic_limit, tail + in_size));
+
+            processed = (size_t)(p->buf - tail);
+            if (processed > in_size)
+                return FL2_ERROR(corruption_detected);
+        }
+        else {
+            return LZMA_STATUS_NEEDS_MORE_INPUT;
+        }
         (*src_len) += processed;
         src += processed;
         in_size -= processed;
-- 
2.43.0


From c2ce305b4fe9712f46bcef6cfdeaf24fca1affe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 04/37] fix: accept an LZMA chunk only if its compressed size
 is used up

When the output of a chunk was complete before all its compressed bytes had
been read, the rest was taken for the next chunk header.
---
 lzma2_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index c66f8b6..c20511e 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1125,8 +1125,8 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             if (FL2_isError(res))
                 return res;
 
-            /* error if decoder not finished but chunk output is complete */
-            if (res != LZMA_STATUS_FINISHED && p->unpack_size == 0)
+            /* error if decoder not finished or input remains but chunk output is complete */
+            if ((res != LZMA_STATUS_FINISHED || p->pack_size != 0) && p->unpack_size == 0)
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
-- 
2.43.0


From b4e47f8ae9e2d7a6c9eeea36291af68b4e0b40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 05/37] fix: reject LZMA chunks without properties after a
 dictionary reset

need_init_prop was set but never tested, so such a chunk was decoded with
properties which belong to an earlier stream or were never initialised.
---
 lzma2_dec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index c20511e..d1af9a3 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1071,7 +1071,9 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             unsigned const mode = LZMA2_GET_LZMA_MODE(p->control);
             BYTE const init_dic = (mode == 3);
             BYTE const init_state = (mode != 0);
-            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
+            if (LZMA2_IS_THERE_PROP(mode))
+                p->need_init_prop = 0;
+            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2) || p->need_init_prop)
                 return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
-- 
2.43.0


From 11bd91de683fc501efe07129da111a9a0f04854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 06/37] fix: dictionary property 40 was treated as an error

FL2_isError() is true for the value (size_t)-1 returned as its size, so valid
streams with a 4 GiB - 1 dictionary could not be decoded.
---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index d1af9a3..884feb1 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -920,7 +920,7 @@ size_t LZMA2_getDictSizeFromProp(BYTE const dict_prop)
         return FL2_ERROR(corruption_detected);
 
     size_t const dict_size = (dict_prop == 40)
-        ? (size_t)-1
+        ? (size_t)0xFFFFFFFF
         : (((size_t)2 | (dict_prop & 1)) << (dict_prop / 2 + 11));
     return dict_size;
 }
-- 
2.43.0


From 3c2f0ea05d3da13865cf57f7ff771f13903e4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 07/37] fix: errors setting up streaming decompression were
 ignored

An invalid dictionary property byte, or failure to allocate the dictionary or
hash state, left the decoder uninitialised but decoding went on.
---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..59eaf3e 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1204,7 +1204,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From 47e4ba8b29e68e749b74cc3bbeed027b0a5a1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 08/37] fix: decompressing empty input read a property byte
 beyond its end

One-shot decompression went on with a source size of (size_t)-1, and a
multithreaded stream took the byte after an empty input buffer.
---
 fl2_decompress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 59eaf3e..81926a2 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -320,6 +320,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     const BYTE *srcBuf = src;
 
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
@@ -1198,7 +1200,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
 
     if (input->pos < input->size
 #ifndef FL2_SINGLETHREAD
-        || decmt
+        || (decmt && fds->stage != FL2DEC_STAGE_INIT)
 #endif
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
-- 
2.43.0


From 1f73f4a8c13077faba2998f046489bc40df31efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 09/37] fix: report a chunk shorter than the range coder header
 as corrupt

The decoder asked for more input although the chunk was complete, which
multithreaded decompression took for success with missing data.
---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 884feb1..23470bc 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1135,7 +1135,7 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
                1. need input but chunk is finished
                2. have output space, input not needed, but nothing was written*/
             if (res == LZMA_STATUS_NEEDS_MORE_INPUT)
-                return (p->pack_size == 0) ? FL2_ERROR(corruption_detected) : res;
+                return (cur_finish_mode == LZMA_FINISH_END) ? FL2_ERROR(corruption_detected) : res;
             else if (in_cur == 0 && p->dic_pos == dic_pos)
                 return FL2_ERROR(corruption_detected);
         }
-- 
2.43.0


From 7793784221bd5cd7ad419f2b796abf613abf2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 10/37] Model checking hooks: small dictionary limit of the
 bit-packed table under FL2_MODEL_CHECK

---
 radix_internal.h | 5 +++++
 radix_mf.c       | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/radix_internal.h b/radix_internal.h
index 9bede0c..033cadd 100644
--- a/radix_internal.h
+++ b/radix_internal.h
@@ -41,6 +41,11 @@ extern "C" {
 #define RADIX_LINK_BITS 26
 #define RADIX_LINK_MASK ((1U << RADIX_LINK_BITS) - 1)
 #define RADIX_NULL_LINK 0xFFFFFFFFU
+#ifdef FL2_MODEL_CHECK /* small bounds for exhaustive state exploration */
+#define RADIX_BITPACK_DICT_MAX ((size_t)1 << 13)
+#else
+#define RADIX_BITPACK_DICT_MAX ((size_t)1 << RADIX_LINK_BITS)
+#endif
 
 #define UNIT_BITS 2
 #define UNIT_MASK ((1U << UNIT_BITS) - 1)
diff --git a/radix_mf.c b/radix_mf.c
index 346f894..78a8426 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -101,7 +101,7 @@ static RMF_builder** RMF_createBuilderTable(U32* const match_table, size_t const
 
 static int RMF_isStruct(size_t const dictionary_size)
 {
-    return dictionary_size > ((size_t)1 << RADIX_LINK_BITS);
+    return dictionary_size > RADIX_BITPACK_DICT_MAX;
 }
 
 /* RMF_clampParams() :
-- 
2.43.0


From ce483d80d2fbe8c91e6a8be671494231f4e2c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 11/37] fix: match table build read beyond the end of the block
 at a long repeat

---
 radix_internal.h |  1 +
 radix_mf.c       | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/radix_internal.h b/radix_internal.h
index 033cadd..7825f5d 100644
--- a/radix_internal.h
+++ b/radix_internal.h
@@ -88,6 +88,7 @@ typedef struct
     U32* table;
     size_t match_buffer_size;
     size_t match_buffer_limit;
+    size_t block_end;
     RMF_listTail tails_8[RADIX8_TABLE_SIZE];
     RMF_tableHead stack[STACK_SIZE];
     RMF_listTail tails_16[RADIX16_TABLE_SIZE];
diff --git a/radix_mf.c b/radix_mf.c
index 78a8426..94836bb 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -288,6 +288,7 @@ void RMF_initTable(FL2_matchTable* const tbl, const void* const data, size_t con
 
 static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     const BYTE* const data_block,
+    size_t const block_end,
     size_t const next,
     U32 count,
     U32 const rpt_len,
@@ -300,7 +301,9 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     const BYTE* const data = data_block + match_buffer[pos].from;
     const BYTE* const data_2 = data - rpt_len;
 
-    while (data[length] == data_2[length] && length < max_len)
+    size_t const limit = MIN(max_len, block_end - match_buffer[pos].from);
+
+    while (length < limit && data[length] == data_2[length])
         ++length;
 
     for (; length <= max_len && count; --count) {
@@ -559,7 +562,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                 size_t const next_link = tbl->match_buffer[next_index].from;
                 if ((link - next_link) > rpt_depth) {
                     if (rpt > 0)
-                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                        RMF_handleRepeat(tbl->match_buffer, data_block, tbl->block_end, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
 
                     rpt = -1;
                     U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -581,7 +584,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                     U32 const dist = (U32)(link - next_link);
                     if (rpt < 0 || dist != rpt_dist) {
                         if (rpt > 0)
-                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                            RMF_handleRepeat(tbl->match_buffer, data_block, tbl->block_end, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
 
                         rpt = 0;
                         rpt_head_next = next_index;
@@ -608,7 +611,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             } while (--list_count != 0);
 
             if (rpt > 0)
-                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                RMF_handleRepeat(tbl->match_buffer, data_block, tbl->block_end, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
 
             size_t const radix_8 = tbl->match_buffer[pos].src.chars[slot];
             U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -680,6 +683,8 @@ int RMF_buildTable(FL2_matchTable* const tbl,
 {
     DEBUGLOG(5, "RMF_buildTable : thread %u", (U32)job);
 
+    tbl->builders[job]->block_end = block.end;
+
     if (tbl->is_struct)
         RMF_structuredBuildTable(tbl, job, multi_thread, block);
     else
-- 
2.43.0


From 7c3f784a83667ef23ba164cde6953837e81ed0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 12/37] fix: one-shot compression of empty input wrote a
 property byte although omitted

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..0b65def 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -572,7 +572,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From 1bc5b796f76a4090640e73b9647784342be6f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 13/37] fix: FL2_getDictSizeFromProp failed for the property
 byte of a stream with a hash

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 81926a2..bcbbec5 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -34,7 +34,8 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_findDecompressedSize(const void *s
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getDictSizeFromProp(unsigned char prop)
 {
-    return LZMA2_getDictSizeFromProp(prop);
+    /* the first byte of a stream may also hold the hash flag */
+    return LZMA2_getDictSizeFromProp(prop & FL2_LZMA_PROP_MASK);
 }
 
 typedef struct
-- 
2.43.0


From e5b1a4fd6d25f99ccb8a72ce01566d738142e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 14/37] fix: FL2_flushStream reported completion while
 asynchronous compression was under way

---
 fl2_compress.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0b65def..3a7b025 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1195,12 +1195,15 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
     if (output != NULL && fcs->outThread < fcs->threadCount)
         FL2_copyCStreamOutput(fcs, output);
 
-    size_t res = FL2_flushStream_internal(fcs, 0);
+    CHECK_F(FL2_flushStream_internal(fcs, 0));
+
+    /* compression of the flushed data may be asynchronous */
+    size_t res = FL2_waitCStream(fcs);
     CHECK_F(res);
 
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
-        res = fcs->outThread < fcs->threadCount;
+        res = fcs->outThread < fcs->threadCount || DICT_hasUnprocessed(&fcs->buf);
     }
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
-- 
2.43.0


From 67f9f8c376984be10a4dd937ce6290d8e0c10020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 15/37] fix: flushing or ending repeatedly with nothing to do
 cancelled the stream

---
 fl2_compress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 3a7b025..6aa8851 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1206,7 +1206,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
         res = fcs->outThread < fcs->threadCount || DICT_hasUnprocessed(&fcs->buf);
     }
 
-    CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
+    CHECK_F(FL2_loopCheck(fcs, res != 0 && output != NULL && prevOut == output->pos));
 
     return res;
 }
@@ -1236,7 +1236,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_endStream(FL2_CStream* fcs, FL2_outBuffer *out
         res = fcs->outThread < fcs->threadCount || DICT_hasUnprocessed(&fcs->buf);
     }
 
-    CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
+    CHECK_F(FL2_loopCheck(fcs, res != 0 && output != NULL && prevOut == output->pos));
 
     return res;
 }
-- 
2.43.0


From 3d9680e9b48a2ad45a51b1b1a86af3a966841eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 16/37] fix: getting the dictionary buffer twice switched back
 to the one being compressed

---
 dict_buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dict_buffer.c b/dict_buffer.c
index 06d9a4f..5200560 100644
--- a/dict_buffer.c
+++ b/dict_buffer.c
@@ -176,7 +176,8 @@ int DICT_async(const DICT_buffer * const buf)
  * if it exists */
 void DICT_shift(DICT_buffer * const buf)
 {
-    if (buf->start < buf->end)
+    /* An empty buffer is ready for use. Switching again would return to the one being compressed. */
+    if (buf->start < buf->end || buf->end == 0)
         return;
 
     size_t overlap = buf->overlap;
-- 
2.43.0


From 25ff084211dc23881e3c65b3f0d41d6823669227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 17/37] fix: FL2_remainingOutputSize counted output which was
 already read

---
 fl2_compress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 6aa8851..7666cb0 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1124,7 +1124,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
     for (size_t u = fcs->outThread; u < fcs->threadCount; ++u)
         cSize += fcs->jobs[u].cSize;
 
-    return cSize;
+    /* part of the current slice may already have been read */
+    return cSize - fcs->outPos;
 }
 
 /* Write the properties byte (if required), the hash and the end marker
-- 
2.43.0


From 899dcd355ef244413e4430ba294abd6eac29333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 18/37] fix: FL2_estimateCStreamSize read beyond its table and
 ignored level 0 meaning the default

---
 fl2_compress.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 7666cb0..5bc4b16 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1297,8 +1297,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
-    return FL2_estimateCCtxSize(compressionLevel, nbThreads)
-        + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
+    return FL2_estimateCStreamSize_byParams(FL2_defaultCParameters + compressionLevel, nbThreads, dualBuffer);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compressionParameters * params, unsigned nbThreads, int dualBuffer)
-- 
2.43.0


From 764869ea725a17605694bc315d457f27b0d0203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 19/37] fix: FL2_estimateCStreamSize_usingCStream left out
 dictionary buffers not yet allocated

---
 fl2_compress.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 5bc4b16..8a6bcf3 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1313,5 +1313,10 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compres
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_usingCStream(const FL2_CStream* fcs)
 {
-    return FL2_estimateCCtxSize_usingCCtx(fcs);
+    /* dictionary buffers too small for the settings are reallocated when the stream is initialized */
+    size_t const dictSize = fcs->params.rParams.dictionary_size;
+    size_t const allocated = DICT_size(&fcs->buf);
+
+    return FL2_estimateCCtxSize_usingCCtx(fcs) - DICT_memUsage(&fcs->buf)
+        + (MAX(dictSize, allocated) << DICT_async(&fcs->buf));
 }
-- 
2.43.0


From 96d77fef4ce92c10a62c8dbbd2c3fea810ea618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 20/37] fix: hash chain was allocated according to the strategy
 of the previous operation

---
 lzma2_enc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..105ba5c 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -866,7 +866,7 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
  */
 int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters* const options)
 {
-    if (enc->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
+    if (options->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
         return LZMA_hashCreate(enc, options->second_dict_bits);
 
     return 0;
-- 
2.43.0


From f1229e3c8611ad11f20a7ba23418f02a9026a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 21/37] fix: retrying after failure to allocate the hash chain
 used a NULL pointer

---
 lzma2_enc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index 105ba5c..93ac6c8 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,10 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From fe5b3373220b370eed52851ae0d54817ca8f3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 22/37] fix: memory estimates left out the list heads of the
 match table

---
 radix_mf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index 94836bb..58daf96 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -734,7 +734,7 @@ BYTE* RMF_getTableAsOutputBuffer(FL2_matchTable* const tbl, size_t const pos)
 
 size_t RMF_memoryUsage(size_t const dict_size, unsigned const buffer_resize, unsigned const thread_count)
 {
-    size_t size = (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
+    size_t size = sizeof(FL2_matchTable) + (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
     size_t const buf_size = RMF_calBufSize(dict_size, buffer_resize);
     size += ((buf_size - 1) * sizeof(RMF_buildMatch) + sizeof(RMF_builder)) * thread_count;
     return size;
-- 
2.43.0


From 94709fa127ae415d29f5d2d4388d4767ff49c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 23/37] fix: failure to allocate match buffers was ignored and
 crashed

---
 fl2_compress.c | 2 +-
 radix_mf.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 8a6bcf3..de6b557 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -453,7 +453,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index 58daf96..e2aa2a2 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -228,7 +228,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From da0f98bba8f1168319ec0bc0a658c899126a09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:15 +0000
Subject: [PATCH 24/37] fix: context leaked if the thread for dual buffering
 could not be created

---
 fl2_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index de6b557..0d01f3c 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
-- 
2.43.0


From 9b5b85f084dbd570158e59b50d75abbb7c927cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 25/37] fix: parameters stayed locked after one-shot
 compression failed

---
 fl2_compress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0d01f3c..ada798a 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -564,6 +564,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    /* Parameters can be changed again whether or not it was successful */
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -590,8 +593,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         dstBuf += XXHASH_SIZEOF;
     }
 #endif
-    
-    FL2_endFrame(cctx);
 
     return dstBuf - (BYTE*)dst;
 }
-- 
2.43.0


From e95c1703d566fc5a3545a3550a86e75370ece1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:47 +0000
Subject: [PATCH 26/37] fix: unread output of an abandoned stream counted
 against the memory limit of the next

FL2_lzma2DecMt_init cleared the total before freeing the buffers, which are
subtracted from it. The total wrapped around and the next stream was always
decompressed by a single thread.
---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index bcbbec5..54e218b 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -599,9 +599,10 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        decmt->memTotal = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
+        /* Only after freeing, which subtracts from it */
+        decmt->memTotal = 0;
         decmt->threads[0].inBlock.first = decmt->head;
         decmt->threads[0].inBlock.last = decmt->head;
         decmt->threads[0].inBlock.startPos = 0;
-- 
2.43.0


From c0449f1d978840648eed6dd1553c5d53e570a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 27/37] fix: cancelling a single-threaded decompression stream
 with a timeout crashed

decmt is NULL in this case.
---
 fl2_decompress.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 54e218b..4c67e6e 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1144,11 +1144,14 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        /* decmt is NULL for a single-threaded stream */
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 1;
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
-- 
2.43.0


From 5eff40518e25d6c9abf66f6e0eb9d72ee068646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 28/37] fix: starved asynchronous decompression waited for
 itself

FL2_decompressStream_blocking called FL2_cancelDStream, which waits for the
thread it is running in when a timeout is set. Releasing the buffers is all
that is required.
---
 fl2_decompress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 4c67e6e..e1a412e 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1258,7 +1258,9 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+#ifndef FL2_SINGLETHREAD
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From a03cb9648e49f80c2715fa1dcb1d63df7cb46376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 29/37] fix: starting an operation on an unfinished stream
 ignored the level and did not wait

FL2_initCStream and FL2_compressCCtx did not end the previous stream. The
parameters were still locked, so the compression level was silently ignored,
and asynchronous compression could still be using the buffers.
---
 fl2_compress.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index ada798a..3fa1960 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -547,6 +547,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if (dstCapacity < 2U - cctx->params.omitProp) /* empty LZMA2 stream is byte sequence {0, 0} */
         return FL2_ERROR(dstSize_tooSmall);
 
+    /* An unfinished stream may still be in progress and locks the parameters */
+    FL2_cancelCStream(cctx);
+
     if (compressionLevel > 0)
         FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
 
@@ -858,6 +861,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
 {
     DEBUGLOG(4, "FL2_initCStream level %d", compressionLevel);
 
+    /* The previous stream may be unfinished and locks the parameters */
+    FL2_cancelCStream(fcs);
+
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
-- 
2.43.0


From 5582edd770a6c51ceb3a05813c8e7544914e84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 30/37] Model checking hooks: match buffer size for small
 dictionaries under FL2_MODEL_CHECK

---
 radix_mf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index e2aa2a2..254a057 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -22,7 +22,11 @@
 #  pragma warning(disable : 4701) /* warning: 'rpt_head_next' may be used uninitialized in this function */
 #endif
 
+#ifdef FL2_MODEL_CHECK /* small bounds for exhaustive state exploration: no buffer below the minimum */
+#define MATCH_BUFFER_SHIFT 3
+#else
 #define MATCH_BUFFER_SHIFT 8;
+#endif
 #define MATCH_BUFFER_ELBOW_BITS 17
 #define MATCH_BUFFER_ELBOW (1UL << MATCH_BUFFER_ELBOW_BITS)
 #define MIN_MATCH_BUFFER_SIZE 256U /* min buffer size at least FL2_SEARCH_DEPTH_MAX + 2 for bounded build */
-- 
2.43.0


From 11d1347b2161d0bb46a498be62cd0bb1e934e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 31/37] fix: freeing a compression stream in progress freed
 memory its threads were using

---
 fl2_compress.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 3fa1960..704fa69 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -205,17 +205,18 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+#ifndef FL2_SINGLETHREAD
+    /* An operation may still be in progress. All threads must stop before anything they use is freed. */
+    FL2POOL_free(cctx->compressThread);
+    FL2POOL_free(cctx->factory);
+#endif
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
         LZMA2_freeECtx(cctx->jobs[u].enc);
     }
 
-#ifndef FL2_SINGLETHREAD
-    FL2POOL_free(cctx->factory);
-    FL2POOL_free(cctx->compressThread);
-#endif
-
     RMF_freeMatchTable(cctx->matchTable);
     free(cctx);
 }
-- 
2.43.0


From 661ae469ce6f3b016c57b94d93475033acb07de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 32/37] fix: freeing a decompression stream in progress freed
 memory its thread was using

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index e1a412e..1451196 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1073,11 +1073,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
-        LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
+        /* Decompression may still be in progress. The thread must stop before anything it uses is freed. */
         FL2POOL_free(fds->decompressThread);
         FL2_lzma2DecMt_free(fds->decmt);
 #endif
+        LZMA_destructDCtx(&fds->dec);
 #ifndef NO_XXHASH
         XXH32_freeState(fds->xxh);
 #endif
-- 
2.43.0


From 3e1caee559f6810505ac0e83543b42fc10f45b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 33/37] fix: cancelling reset the match table list heads while
 other threads used them

---
 fl2_compress.c | 8 ++++++--
 radix_mf.c     | 7 ++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 704fa69..8e59d83 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -317,8 +317,10 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
     FL2POOL_waitAll(cctx->factory, 0);
 
-    if (err)
+    if (err) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
@@ -337,8 +339,10 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
 #else /* FL2_SINGLETHREAD */
 
-    if (err)
+    if (err) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
diff --git a/radix_mf.c b/radix_mf.c
index 254a057..c74bd7c 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -697,11 +697,8 @@ int RMF_buildTable(FL2_matchTable* const tbl,
     else
         RMF_bitpackBuildTable(tbl, job, multi_thread, block);
 
-    if (job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX) {
-        RMF_initListHeads(tbl);
-        return 1;
-    }
-    return 0;
+    /* If canceled the list heads must be reset, but only after all threads have finished */
+    return job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX;
 }
 
 void RMF_cancelBuild(FL2_matchTable * const tbl)
-- 
2.43.0


From 73f4db48474e1714aa8bc0c38c7eb60c239fd10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 34/37] fix: multithreaded decompression could move the input
 position back beyond where a call started

---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 1451196..bd87751 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -885,6 +885,8 @@ static size_t FL2_handleFinalChunkMt(FL2_decMt *const decmt, size_t res)
 static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
 {
     FL2_decBlock *inBlock = &decmt->threads[decmt->numThreads].inBlock;
+    /* Input read by previous calls cannot be returned */
+    size_t const startPos = input->pos;
     LZMA2_parseRes res = CHUNK_CONTINUE;
     /* Continue while input is available or the parse pos is not beyond the end */
     while (input->pos < input->size || inBlock->endPos < inBlock->last->length) {
@@ -902,7 +904,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
                 if (end != 0) {
                     inBlock = &decmt->threads[decmt->numThreads - 1].inBlock;
                     /* rewind input in case data beyond terminator was read. Required for xxhash and container formats */
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                     return end;
@@ -915,7 +917,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
             FL2_decInbuf *const next = FL2_createInbufNode(decmt, inBlock->last);
             if (next == NULL) {
                 if (inBlock->endPos < inBlock->last->length) {
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                 }
-- 
2.43.0


From 90f4fad9b929eebafa843ffbbeb8a3185c5f43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 35/37] fix: match buffer size depended on the previous
 dictionary size when the match table was reused

---
 radix_mf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index c74bd7c..8acbcf1 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -266,6 +266,8 @@ BYTE RMF_compatibleParameters(const FL2_matchTable* const tbl, const RMF_paramet
 size_t RMF_applyParameters(FL2_matchTable* const tbl, const RMF_parameters* const p, size_t const dict_reduce)
 {
     RMF_parameters params = RMF_clampParams(*p);
+    /* The match buffer size depends on it */
+    tbl->unreduced_dict_size = params.dictionary_size;
     RMF_reduceDict(&params, dict_reduce);
     return RMF_applyParameters_internal(tbl, &params);
 }
-- 
2.43.0


From d6af7264695bfeca8e1c849f6a0f2072b64989a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 36/37] fix: division by zero in UTIL_countPhysicalCores when
 siblings < cpu cores

---
 util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.c b/util.c
index d646606..48ba88f 100644
--- a/util.c
+++ b/util.c
@@ -633,7 +633,7 @@ int UTIL_countPhysicalCores(void)
                 goto failed;
             }
         }
-        if (siblings && cpu_cores) {
+        if (siblings && cpu_cores && siblings > cpu_cores) {
             ratio = siblings / cpu_cores;
         }
 failed:
-- 
2.43.0


From c605f5bcc03e97c5f12720d063a320cf714ab250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 37/37] fix: threads counting the processors at the same time
 could get different numbers

---
 util.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/util.c b/util.c
index 48ba88f..4d7f998 100644
--- a/util.c
+++ b/util.c
@@ -583,11 +583,13 @@ int UTIL_countPhysicalCores(void)
 int UTIL_countPhysicalCores(void)
 {
     static int numPhysicalCores = 0;
+    int processors;
 
     if (numPhysicalCores != 0) return numPhysicalCores;
 
-    numPhysicalCores = (int)sysconf(_SC_NPROCESSORS_ONLN);
-    if (numPhysicalCores == -1) {
+    /* other threads see numPhysicalCores only when it is final */
+    processors = (int)sysconf(_SC_NPROCESSORS_ONLN);
+    if (processors == -1) {
         /* value not queryable, fall back on 1 */
         return numPhysicalCores = 1;
     }
@@ -603,7 +605,7 @@ int UTIL_countPhysicalCores(void)
 
         if (cpuinfo == NULL) {
             /* fall back on the sysconf value */
-            return numPhysicalCores;
+            return numPhysicalCores = processors;
         }
 
         /* assume the cpu cores/siblings values will be constant across all
@@ -638,7 +640,7 @@ int UTIL_countPhysicalCores(void)
         }
 failed:
         fclose(cpuinfo);
-        return numPhysicalCores = numPhysicalCores / ratio;
+        return numPhysicalCores = processors / ratio;
     }
 }
 
-- 
2.43.0

