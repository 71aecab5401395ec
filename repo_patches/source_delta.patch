From fab2ec0add703a6d67a1af378f29f8ad7875485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 01/48] fix: do not read past the end of the input when
 handling repeats in buffered match finding

---
 radix_mf.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/radix_mf.c b/radix_mf.c
index 346f894..8231293 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -292,20 +292,24 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     U32 count,
     U32 const rpt_len,
     U32 const depth,
+    U32 const max_depth,
     U32 const max_len)
 {
     size_t pos = next;
     U32 length = depth + rpt_len;
+    /* Data is only known to be readable up to max_depth from here */
+    U32 const limit = MIN(max_depth, max_len);
 
     const BYTE* const data = data_block + match_buffer[pos].from;
     const BYTE* const data_2 = data - rpt_len;
 
-    while (data[length] == data_2[length] && length < max_len)
+    while (length < limit && data[length] == data_2[length])
         ++length;
 
+    /* The encoder will extend matches of length max_depth */
     for (; length <= max_len && count; --count) {
         size_t next_i = match_buffer[pos].next & 0xFFFFFF;
-        match_buffer[pos].next = (U32)next_i | (length << 24);
+        match_buffer[pos].next = (U32)next_i | (MIN(length, limit) << 24);
         length += rpt_len;
         pos = next_i;
     }
@@ -559,7 +563,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                 size_t const next_link = tbl->match_buffer[next_index].from;
                 if ((link - next_link) > rpt_depth) {
                     if (rpt > 0)
-                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_depth, tbl->max_len);
 
                     rpt = -1;
                     U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -581,7 +585,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                     U32 const dist = (U32)(link - next_link);
                     if (rpt < 0 || dist != rpt_dist) {
                         if (rpt > 0)
-                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_depth, tbl->max_len);
 
                         rpt = 0;
                         rpt_head_next = next_index;
@@ -608,7 +612,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             } while (--list_count != 0);
 
             if (rpt > 0)
-                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_depth, tbl->max_len);
 
             size_t const radix_8 = tbl->match_buffer[pos].src.chars[slot];
             U32 const prev = tbl->tails_8[radix_8].prev_index;
-- 
2.43.0


From 18e5948ea88b634473fdb19f5a9abe314a0caed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 02/48] fix: omit the property byte for empty input when
 FL2_p_omitProperties is set

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..0b65def 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -572,7 +572,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From 6c52b80b59a6dc9ce0e6b7f0c44c6288ad817234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 03/48] fix: never rewind stream input beyond the position it
 had at the start of the call

---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..d8f43fe 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -882,6 +882,8 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
 {
     FL2_decBlock *inBlock = &decmt->threads[decmt->numThreads].inBlock;
     LZMA2_parseRes res = CHUNK_CONTINUE;
+    /* Only bytes read during this call can be returned to the caller */
+    size_t const startPos = input->pos;
     /* Continue while input is available or the parse pos is not beyond the end */
     while (input->pos < input->size || inBlock->endPos < inBlock->last->length) {
         if (inBlock->endPos < inBlock->last->length) {
@@ -898,7 +900,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
                 if (end != 0) {
                     inBlock = &decmt->threads[decmt->numThreads - 1].inBlock;
                     /* rewind input in case data beyond terminator was read. Required for xxhash and container formats */
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                     return end;
@@ -911,7 +913,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
             FL2_decInbuf *const next = FL2_createInbufNode(decmt, inBlock->last);
             if (next == NULL) {
                 if (inBlock->endPos < inBlock->last->length) {
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                 }
-- 
2.43.0


From 7febe6f92540eb6b417dffbd1b1e16c9702aa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 04/48] fix: read the thread pool state under its lock and
 count queued jobs as unfinished in FL2POOL_waitAll

---
 fl2_pool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..7ea6c5e 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -174,8 +174,10 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
+    /* The state must not be read without the lock. A worker increments queueIndex before numThreadsBusy,
+     * so the queue could appear empty and idle when the last job is about to start. */
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
     if (timeout != 0) {
@@ -186,8 +188,10 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    /* Jobs still in the queue are unfinished too */
+    int const unfinished = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return unfinished;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From 499e31e28c6a392de86106d1ed0546698c6633b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 05/48] fix: do not read the property byte from empty input in
 FL2_decompressStream with multithreading

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index d8f43fe..ec6a40c 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1198,9 +1198,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
     size_t const prevOut = output->pos;
     size_t const prevIn = input->pos;
 
+    /* The MT decoder may have buffered input, but not before the property byte is known */
     if (input->pos < input->size
 #ifndef FL2_SINGLETHREAD
-        || decmt
+        || (decmt && fds->stage != FL2DEC_STAGE_INIT)
 #endif
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
-- 
2.43.0


From 58e946bdbd6d976ccfe284e3ab38bc2bf4386a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 06/48] fix: report a failed decoder initialisation from
 FL2_decompressStream

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index ec6a40c..b68b554 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1206,8 +1206,8 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From e85657f451aba7b10961dff4c260e09f3c453992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 07/48] fix: reject LZMA2 chunks which rely on lc/lp/pb
 properties that were never supplied

---
 lzma2_dec.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..ae36a89 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -958,7 +958,7 @@ size_t LZMA2_initDecoder(LZMA2_DCtx *const p, BYTE const dict_prop, BYTE *const
     p->dic_buf_size = dic_buf_size;
     p->prop.lc = 3;
     p->prop.lp = 0;
-    p->prop.lc = 2;
+    p->prop.pb = 2;
     p->prop.dic_size = (U32)dict_size;
 
     p->state2 = LZMA2_STATE_CONTROL;
@@ -1063,6 +1063,11 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             BYTE const init_state = (mode != 0);
             if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
                 return FL2_ERROR(corruption_detected);
+            /* The first LZMA chunk after a dict reset must supply the properties */
+            if (LZMA2_IS_THERE_PROP(mode))
+                p->need_init_prop = 0;
+            else if (p->need_init_prop)
+                return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
             p->need_init_dic = 0;
-- 
2.43.0


From 3f7e4e0f874bf34b1855859a2b4be214d87c6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 08/48] fix: reject LZMA2 chunks whose compressed size exceeds
 the data they contain

---
 lzma2_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index ae36a89..7495234 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1120,8 +1120,8 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             if (FL2_isError(res))
                 return res;
 
-            /* error if decoder not finished but chunk output is complete */
-            if (res != LZMA_STATUS_FINISHED && p->unpack_size == 0)
+            /* error if decoder not finished or input left over but chunk output is complete */
+            if ((res != LZMA_STATUS_FINISHED || p->pack_size != 0) && p->unpack_size == 0)
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
-- 
2.43.0


From 656d9fbec4bcbfaf0b4ad140e5b7e7569b4c8684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 09/48] fix: do not read the property byte of empty input in
 FL2_decompressDCtx

---
 fl2_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index b68b554..996761d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -320,6 +320,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     const BYTE *srcBuf = src;
 
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
-- 
2.43.0


From f4e3b2e4b03f155be71c8979426440b5a5504a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 10/48] fix: accept dictionary property 40 (4 GiB - 1)

---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 7495234..71f4d04 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -910,7 +910,7 @@ size_t LZMA2_getDictSizeFromProp(BYTE const dict_prop)
         return FL2_ERROR(corruption_detected);
 
     size_t const dict_size = (dict_prop == 40)
-        ? (size_t)-1
+        ? (size_t)0xFFFFFFFF
         : (((size_t)2 | (dict_prop & 1)) << (dict_prop / 2 + 11));
     return dict_size;
 }
-- 
2.43.0


From 9bf806921bebc6c5868b2cd7ce69a48d59a6f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 11/48] fix: ignore the hash flag in FL2_getDictSizeFromProp,
 which takes the first byte of a stream

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 996761d..3e56fc8 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -34,7 +34,7 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_findDecompressedSize(const void *s
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getDictSizeFromProp(unsigned char prop)
 {
-    return LZMA2_getDictSizeFromProp(prop);
+    return LZMA2_getDictSizeFromProp(prop & FL2_LZMA_PROP_MASK);
 }
 
 typedef struct
-- 
2.43.0


From fd39cae98509bd324a83c76c50d2046c97529441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 12/48] fix: reject property bytes with the reserved bit set

---
 fl2_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_internal.h b/fl2_internal.h
index 9f66645..7207cd1 100644
--- a/fl2_internal.h
+++ b/fl2_internal.h
@@ -36,7 +36,7 @@ extern "C" {
 *  Stream properties
 ***************************************/
 #define FL2_PROP_HASH_BIT 7
-#define FL2_LZMA_PROP_MASK 0x3FU
+#define FL2_LZMA_PROP_MASK 0x7FU /* all bits but the hash flag */
 #ifndef NO_XXHASH
 #  define XXHASH_SIZEOF sizeof(XXH32_canonical_t)
 #endif
-- 
2.43.0


From fb0a77fa1318e8dcd9a7411edf20ba179c9eaae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 13/48] fix: end the frame and unlock the parameters when
 one-shot compression fails

---
 fl2_compress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0b65def..0b1080b 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -562,6 +562,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    /* The frame ends here even if an error occurred. Parameters must be unlocked. */
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -588,8 +591,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         dstBuf += XXHASH_SIZEOF;
     }
 #endif
-    
-    FL2_endFrame(cctx);
 
     return dstBuf - (BYTE*)dst;
 }
-- 
2.43.0


From 7eef02e822e6ee6836c22689b83525d69cb51330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 14/48] fix: report an invalid compression level and abandon
 the unfinished stream in FL2_initCStream

---
 fl2_compress.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0b1080b..69c34ee 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -546,7 +546,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         return FL2_ERROR(dstSize_tooSmall);
 
     if (compressionLevel > 0)
-        FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
+        CHECK_F(FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel));
 
     DEBUGLOG(4, "FL2_compressCCtx : level %u, %u src => %u avail", cctx->params.compressionLevel, (U32)srcSize, (U32)dstCapacity);
 
@@ -856,12 +856,15 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
 {
     DEBUGLOG(4, "FL2_initCStream level %d", compressionLevel);
 
+    /* Abandon any unfinished stream. This also unlocks the parameters. */
+    FL2_cancelCStream(fcs);
+
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
 
     if(compressionLevel > 0)
-        FL2_CCtx_setParameter(fcs, FL2_p_compressionLevel, compressionLevel);
+        CHECK_F(FL2_CCtx_setParameter(fcs, FL2_p_compressionLevel, compressionLevel));
 
     DICT_buffer *const buf = &fcs->buf;
     size_t const dictSize = fcs->params.rParams.dictionary_size;
-- 
2.43.0


From 5de472097339bcc21e9246c3884defed76370386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 15/48] fix: write the end of an empty stream to the start of
 the match table

---
 fl2_compress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 69c34ee..a34b2ca 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1141,6 +1141,8 @@ static void FL2_writeEnd(FL2_CStream* const fcs)
         fcs->outThread = 0; 
         fcs->threadCount = 1;
         fcs->jobs[0].cSize = 0;
+        /* may be a leftover from an earlier stream which used a larger table */
+        fcs->jobs[0].block.start = 0;
         thread = 0;
     }
     BYTE *const dst = RMF_getTableAsOutputBuffer(fcs->matchTable, fcs->jobs[thread].block.start)
-- 
2.43.0


From 9c989b4f1a99cd235fd10f1c5a3497eaf02bc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 16/48] fix: subtract output already copied in
 FL2_remainingOutputSize

---
 fl2_compress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index a34b2ca..3b52db6 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1128,7 +1128,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
     for (size_t u = fcs->outThread; u < fcs->threadCount; ++u)
         cSize += fcs->jobs[u].cSize;
 
-    return cSize;
+    /* part of the current slice may have been copied already */
+    return cSize - fcs->outPos;
 }
 
 /* Write the properties byte (if required), the hash and the end marker
-- 
2.43.0


From ab131107ab1332958a6b056c699832891301db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 17/48] fix: report failed allocation of match table builders,
 and do not leak a context

---
 fl2_compress.c | 12 ++++++++++--
 radix_mf.c     |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 3b52db6..a7da8c0 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
@@ -438,6 +440,12 @@ static void FL2_preBeginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     if (cctx->matchTable && !RMF_compatibleParameters(cctx->matchTable, &cctx->params.rParams, dictReduce)) {
         RMF_freeMatchTable(cctx->matchTable);
         cctx->matchTable = NULL;
+        /* any output stored in the table is gone */
+        cctx->outThread = 0;
+        cctx->threadCount = 0;
+        cctx->outPos = 0;
+        cctx->curBlock.start = 0;
+        cctx->curBlock.end = 0;
     }
 }
 
@@ -453,7 +461,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index 8231293..68658d5 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -228,7 +228,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From 5618bc5994d25df4d364520c8d00b97726ead053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 18/48] fix: accept level 0 and reject invalid levels in
 FL2_estimateCStreamSize

---
 fl2_compress.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index a7da8c0..f7033c3 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1308,8 +1308,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
-    return FL2_estimateCCtxSize(compressionLevel, nbThreads)
-        + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
+    return FL2_estimateCStreamSize_byParams(FL2_defaultCParameters + compressionLevel, nbThreads, dualBuffer);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compressionParameters * params, unsigned nbThreads, int dualBuffer)
-- 
2.43.0


From 3fd41bf78ec37102f23ec0b8b8d5307908765547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 19/48] fix: round the compression progress once so that it
 reaches the total

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index f7033c3..46d5b21 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1100,7 +1100,7 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_getCStreamProgress(const FL2_CStre
     if (fcs->progressIn == 0 && fcs->curBlock.end != 0)
         return fcs->streamTotal + ((fcs->matchTable->progress * encodeSize / fcs->curBlock.end * fcs->rmfWeight) >> 4);
 
-    return fcs->streamTotal + ((fcs->rmfWeight * encodeSize) >> 4) + ((fcs->progressIn * fcs->encWeight) >> 4);
+    return fcs->streamTotal + ((fcs->rmfWeight * encodeSize + fcs->progressIn * fcs->encWeight) >> 4);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_waitCStream(FL2_CStream * fcs)
-- 
2.43.0


From d7ef1fb6adf0b93f6c6d2aec0d2686edd09e7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 20/48] fix: do not examine asynchronous compression results
 until the compression thread is idle

---
 fl2_compress.c | 65 +++++++++++++++++++++++++++++++++++++-------------
 fl2_pool.c     | 11 +++++++--
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 46d5b21..b55f132 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -412,15 +412,42 @@ static size_t FL2_compressCurBlock(FL2_CCtx* const cctx, int const streamProp)
     cctx->encWeight = encWeight;
 
 #ifndef FL2_SINGLETHREAD
-    if(cctx->compressThread != NULL)
+    if (cctx->compressThread != NULL) {
         FL2POOL_add(cctx->compressThread, FL2_compressCurBlock_async, cctx, streamProp);
-    else
+        /* The result is not known yet */
+        return FL2_error_no_error;
+    }
 #endif
         cctx->asyncRes = FL2_compressCurBlock_blocking(cctx, streamProp);
 
     return cctx->asyncRes;
 }
 
+/* FL2_asyncBusy() :
+ * The results in asyncRes, threadCount and jobs belong to the compression thread until it is idle.
+ */
+static int FL2_asyncBusy(const FL2_CCtx* const cctx)
+{
+#ifndef FL2_SINGLETHREAD
+    return cctx->compressThread != NULL && FL2POOL_threadsBusy(cctx->compressThread) != 0;
+#else
+    (void)cctx;
+    return 0;
+#endif
+}
+
+/* Result of the last compression if complete, or no error if still in progress */
+static size_t FL2_asyncResult(const FL2_CCtx* const cctx)
+{
+    return FL2_asyncBusy(cctx) ? FL2_error_no_error : cctx->asyncRes;
+}
+
+/* True if compression is complete and some output has not been read */
+static int FL2_hasOutput(const FL2_CCtx* const cctx)
+{
+    return !FL2_asyncBusy(cctx) && cctx->outThread < cctx->threadCount;
+}
+
 /* FL2_getProp() :
  * Get the LZMA2 dictionary size property byte. If xxhash is enabled, includes the xxhash flag bit.
  */
@@ -952,6 +979,9 @@ static size_t FL2_compressStream_internal(FL2_CStream* const fcs, int const endi
  */
 FL2LIB_API size_t FL2LIB_CALL FL2_copyCStreamOutput(FL2_CStream* fcs, FL2_outBuffer *output)
 {
+    if (FL2_asyncBusy(fcs))
+        return 0;
+
     for (; fcs->outThread < fcs->threadCount; ++fcs->outThread) {
         const BYTE* const outBuf = RMF_getTableAsOutputBuffer(fcs->matchTable, fcs->jobs[fcs->outThread].block.start) + fcs->outPos;
         BYTE* const dstBuf = (BYTE*)output->dst + output->pos;
@@ -977,7 +1007,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_copyCStreamOutput(FL2_CStream* fcs, FL2_outBuf
 
 static size_t FL2_compressStream_input(FL2_CStream* fcs, FL2_inBuffer* input)
 {
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_asyncResult(fcs));
 
     DICT_buffer * const buf = &fcs->buf;
 
@@ -990,19 +1020,19 @@ static size_t FL2_compressStream_input(FL2_CStream* fcs, FL2_inBuffer* input)
             DICT_shift(buf);
         }
         
-        CHECK_F(fcs->asyncRes);
+        CHECK_F(FL2_asyncResult(fcs));
 
         DICT_put(buf, input);
         
         if (!DICT_availSpace(buf)) {
             /* break if the compressor is not available */
-            if (fcs->outThread < fcs->threadCount)
+            if (FL2_hasOutput(fcs))
                 break;
 
             CHECK_F(FL2_compressStream_internal(fcs, 0));
         }
 
-        CHECK_F(fcs->asyncRes);
+        CHECK_F(FL2_asyncResult(fcs));
     }
 
     return FL2_error_no_error;
@@ -1031,17 +1061,17 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressStream(FL2_CStream* fcs, FL2_outBuffer
     size_t const prevIn = input->pos;
     size_t const prevOut = (output != NULL) ? output->pos : 0;
 
-    if (output != NULL && fcs->outThread < fcs->threadCount)
+    if (output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
 
     CHECK_F(FL2_compressStream_input(fcs, input));
 
-    if(output != NULL && fcs->outThread < fcs->threadCount)
+    if(output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
 
     CHECK_F(FL2_loopCheck(fcs, prevIn == input->pos && (output == NULL || prevOut == output->pos)));
 
-    return fcs->outThread < fcs->threadCount;
+    return FL2_hasOutput(fcs);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dictBuffer * dict)
@@ -1049,7 +1079,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dic
     if (!fcs->lockParams)
         return FL2_ERROR(init_missing);
 
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_asyncResult(fcs));
 
     DICT_buffer *buf = &fcs->buf;
 
@@ -1069,7 +1099,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_updateDictionary(FL2_CStream * fcs, size_t add
     if (DICT_update(&fcs->buf, addedSize))
         CHECK_F(FL2_compressStream_internal(fcs, 0));
 
-    return fcs->outThread < fcs->threadCount;
+    return FL2_hasOutput(fcs);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getNextCompressedBuffer(FL2_CStream* fcs, FL2_cBuffer* cbuf)
@@ -1130,6 +1160,9 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelCStream(FL2_CStream *fcs)
 
 FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
 {
+    if (FL2_asyncBusy(fcs))
+        return 0;
+
     CHECK_F(fcs->asyncRes);
 
     size_t cSize = 0;
@@ -1189,7 +1222,7 @@ static void FL2_writeEnd(FL2_CStream* const fcs)
 
 static size_t FL2_flushStream_internal(FL2_CStream* fcs, int const ending)
 {
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_asyncResult(fcs));
 
     DEBUGLOG(4, "FL2_flushStream_internal : %u to compress, %u to write",
         (U32)(fcs->buf.end - fcs->buf.start),
@@ -1197,7 +1230,7 @@ static size_t FL2_flushStream_internal(FL2_CStream* fcs, int const ending)
 
     CHECK_F(FL2_compressStream_internal(fcs, ending));
 
-    return fcs->outThread < fcs->threadCount;
+    return FL2_hasOutput(fcs);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *output)
@@ -1207,7 +1240,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
 
     size_t const prevOut = (output != NULL) ? output->pos : 0;
 
-    if (output != NULL && fcs->outThread < fcs->threadCount)
+    if (output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
 
     size_t res = FL2_flushStream_internal(fcs, 0);
@@ -1215,7 +1248,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
 
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
-        res = fcs->outThread < fcs->threadCount;
+        res = FL2_hasOutput(fcs);
     }
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
@@ -1230,7 +1263,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_endStream(FL2_CStream* fcs, FL2_outBuffer *out
 
     size_t const prevOut = (output != NULL) ? output->pos : 0;
     
-    if (output != NULL && fcs->outThread < fcs->threadCount)
+    if (output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
 
     CHECK_F(FL2_flushStream_internal(fcs, 1));
diff --git a/fl2_pool.c b/fl2_pool.c
index 7ea6c5e..bcbdc22 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -194,9 +194,16 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
     return unfinished;
 }
 
-size_t FL2POOL_threadsBusy(void * ctx)
+size_t FL2POOL_threadsBusy(void * ctxVoid)
 {
-    return ((FL2POOL_ctx*)ctx)->numThreadsBusy;
+    FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
+    FL2_pthread_mutex_lock(&ctx->queueMutex);
+    /* Include jobs not started yet */
+    size_t busy = ctx->numThreadsBusy;
+    if (ctx->queueIndex < ctx->queueEnd)
+        busy += ctx->queueEnd - ctx->queueIndex;
+    FL2_pthread_mutex_unlock(&ctx->queueMutex);
+    return busy;
 }
 
 #endif  /* FL2_SINGLETHREAD */
-- 
2.43.0


From 98d2525967bccec7c48828048b8d2cd9f75d7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 21/48] fix: FL2_cancelDStream without multithreading, and
 deadlock when decompression makes no progress after setting a timeout

---
 fl2_decompress.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 3e56fc8..99eb548 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1144,11 +1144,14 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        /* Single-threaded decompression has no cancel flag. It ends when the input or output does. */
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 1;
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
@@ -1256,7 +1259,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+#ifndef FL2_SINGLETHREAD
+            /* This may be decompressThread so it must not wait for itself in FL2_cancelDStream() */
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From 05fe9c394fe8a38648b93d8f66217f826bb623f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 22/48] fix: determine from the thread pool whether
 asynchronous decompression is in progress, and keep the result for
 FL2_waitDStream

---
 fl2_decompress.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 99eb548..230f626 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -470,7 +470,6 @@ struct FL2_DStream_s
     FL2_decStage stage;
     BYTE doHash;
     BYTE loopCount;
-    BYTE wait;
     BYTE overlap[LZMA_OVERLAP_SIZE];
 };
 
@@ -1031,7 +1030,8 @@ FL2LIB_API FL2_DStream* FL2LIB_CALL FL2_createDStream(void)
 static void FL2_resetDStream(FL2_DStream *fds)
 {
     fds->stage = FL2DEC_STAGE_INIT;
-    fds->asyncRes = 0;
+    /* Not complete */
+    fds->asyncRes = 1;
     fds->streamTotal = 0;
     fds->overlapSize = 0;
     fds->progress = 0;
@@ -1039,7 +1039,18 @@ static void FL2_resetDStream(FL2_DStream *fds)
     fds->xxhPos = 0;
 #endif
     fds->loopCount = 0;
-    fds->wait = 0;
+}
+
+/* True if decompression has not completed since a timeout occurred.
+ * asyncRes and the decoder state belong to decompressThread until it is idle. */
+static int FL2_asyncBusy(const FL2_DStream *fds)
+{
+#ifndef FL2_SINGLETHREAD
+    return fds->decompressThread != NULL && FL2POOL_threadsBusy(fds->decompressThread) != 0;
+#else
+    (void)fds;
+    return 0;
+#endif
 }
 
 FL2LIB_API FL2_DStream *FL2LIB_CALL FL2_createDStreamMt(unsigned nbThreads)
@@ -1098,7 +1109,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initDStream(FL2_DStream* fds)
 {
     DEBUGLOG(4, "FL2_initDStream");
 
-    if (fds->wait)
+    if (FL2_asyncBusy(fds))
         return FL2_ERROR(stage_wrong);
 
     FL2_resetDStream(fds);
@@ -1120,7 +1131,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_setDStreamTimeout(FL2_DStream * fds, unsigned
                 return FL2_ERROR(memory_allocation);
         }
     }
-    else if (!fds->wait) {
+    else if (!FL2_asyncBusy(fds)) {
         /* Only free the thread if decompression not underway */
         FL2POOL_free(fds->decompressThread);
         fds->decompressThread = NULL;
@@ -1287,26 +1298,23 @@ static void FL2_decompressStream_async(void* const jobDescription, ptrdiff_t con
     FL2_DStream* const fds = (FL2_DStream*)jobDescription;
 
     fds->asyncRes = FL2_decompressStream_blocking(fds, fds->asyncOutput, fds->asyncInput);
-    fds->wait = 0;
 
     (void)n;
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuffer* output, FL2_inBuffer* input)
 {
+    /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
+    if (FL2_asyncBusy(fds))
+        return FL2_ERROR(stage_wrong);
+
     fds->streamTotal += fds->progress;
     fds->progress = 0;
 
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
-        if (fds->wait)
-            return FL2_ERROR(stage_wrong);
-
         fds->asyncOutput = output;
         fds->asyncInput = input;
-        /* FL2_decompressStream_async will reset fds->wait upon completion */
-        fds->wait = 1;
 
         FL2POOL_add(fds->decompressThread, FL2_decompressStream_async, fds, 0);
 
@@ -1319,7 +1327,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuff
     else
 #endif
     {
-        return FL2_decompressStream_blocking(fds, output, input);
+        /* Keep the result for FL2_waitDStream() */
+        fds->asyncRes = FL2_decompressStream_blocking(fds, output, input);
+        return fds->asyncRes;
     }
 }
 
-- 
2.43.0


From 2c0e5c3e03deeecdbed6032ee5435de4ee2125d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 23/48] fix: stop asynchronous work before freeing the memory
 it uses

---
 fl2_compress.c   | 3 +++
 fl2_decompress.c | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index b55f132..dcd96c5 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -205,6 +205,9 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+    /* Everything is in use until compressThread is idle */
+    FL2_cancelCStream(cctx);
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
diff --git a/fl2_decompress.c b/fl2_decompress.c
index 230f626..d2ad6da 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1084,6 +1084,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
+        /* Everything is in use until decompressThread is idle */
+        FL2_cancelDStream(fds);
         LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
         FL2POOL_free(fds->decompressThread);
-- 
2.43.0


From eb7ac8ea110f50748b1a8125c358e57f1ce898e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 24/48] fix: keep the MT decoder memory total correct when an
 unfinished stream is initialised again

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index d2ad6da..641f414 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -597,9 +597,10 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        decmt->memTotal = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
+        /* Only the head remains */
+        decmt->memTotal = sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
         decmt->threads[0].inBlock.first = decmt->head;
         decmt->threads[0].inBlock.last = decmt->head;
         decmt->threads[0].inBlock.startPos = 0;
-- 
2.43.0


From fa2a1f4822024a0b1389cc4c792336ed6725811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 25/48] fix: leave no pointers to freed input buffers in the MT
 decoder

---
 fl2_decompress.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 641f414..8ad1995 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -559,6 +559,13 @@ static void LZMA2_freeExtraInbufNodes(FL2_decMt *const decmt)
     LZMA2_freeInbufNodeChain(decmt, decmt->head->next, NULL);
     decmt->head->next = NULL;
     decmt->head->length = 0;
+    /* No pointers to freed nodes may remain */
+    decmt->cur = NULL;
+    decmt->threads[0].inBlock.first = decmt->head;
+    decmt->threads[0].inBlock.last = decmt->head;
+    decmt->threads[0].inBlock.startPos = 0;
+    decmt->threads[0].inBlock.endPos = 0;
+    decmt->threads[0].inBlock.unpackSize = 0;
 }
 
 static void FL2_freeOutputBuffers(FL2_decMt *const decmt)
@@ -601,11 +608,6 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         LZMA2_freeExtraInbufNodes(decmt);
         /* Only the head remains */
         decmt->memTotal = sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
-        decmt->threads[0].inBlock.first = decmt->head;
-        decmt->threads[0].inBlock.last = decmt->head;
-        decmt->threads[0].inBlock.startPos = 0;
-        decmt->threads[0].inBlock.endPos = 0;
-        decmt->threads[0].inBlock.unpackSize = 0;
     }
 }
 
-- 
2.43.0


From 5fd681981977b8abb814e5f5db10ea17eadee622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 26/48] fix: do not report a flush as complete while
 compression is in progress or input is unprocessed

---
 fl2_compress.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index dcd96c5..4420c56 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1233,7 +1233,8 @@ static size_t FL2_flushStream_internal(FL2_CStream* fcs, int const ending)
 
     CHECK_F(FL2_compressStream_internal(fcs, ending));
 
-    return FL2_hasOutput(fcs);
+    /* Wait for completion, or the timeout. The flush is not done while compression is in progress. */
+    return FL2_waitCStream(fcs);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *output)
@@ -1251,7 +1252,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
 
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
-        res = FL2_hasOutput(fcs);
+        res = FL2_hasOutput(fcs) || DICT_hasUnprocessed(&fcs->buf);
     }
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
@@ -1269,9 +1270,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_endStream(FL2_CStream* fcs, FL2_outBuffer *out
     if (output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
 
-    CHECK_F(FL2_flushStream_internal(fcs, 1));
-
-    size_t res = FL2_waitCStream(fcs);
+    size_t res = FL2_flushStream_internal(fcs, 1);
     CHECK_F(res);
 
     if (!fcs->endMarked && !DICT_hasUnprocessed(&fcs->buf)) {
-- 
2.43.0


From a9686fa32b6408cc7e12a9d3b354110e3c1ea93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 27/48] fix: set matches in a 2-byte repeat which begins before
 the block start (endless loop extending zero-length matches)

---
 radix_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_engine.h b/radix_engine.h
index 7bccaab..aaa224f 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -60,7 +60,7 @@ static size_t RMF_handleRepeat2(RMF_builder* const tbl, const BYTE* const data_b
 
     ptrdiff_t const rpt_index = i;
     /* No point if it's in the overlap region */
-    if (i >= (ptrdiff_t)start) {
+    if (last_2 >= (ptrdiff_t)start) {
         U32 len = depth + (data_block[last_2 + depth] == data_block[last_2]);
         /* Set matches at distance 2 and available length */
         for (i = last_2; i > rpt_index && len <= RADIX_MAX_LENGTH; i -= 2) {
-- 
2.43.0


From c6494f1fbe71da323509da436d3b000326632a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 28/48] fix: don't read past the end of the input when decoding
 a corrupt chunk (the packed data end is decoded from a padded copy)

---
 lzma2_dec.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 71f4d04..d36d4fd 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -862,21 +862,31 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
         if (p->need_init_state)
             LZMA_initStateReal(p);
 
+        /* The decoder may read up to LZMA_REQUIRED_INPUT_MAX bytes from any position before buf_limit.
+         * Decode the end of the packed data from a padded copy so corrupt data can't cause a read
+         * beyond the end of the input. */
+        BYTE end_buf[LZMA_REQUIRED_INPUT_MAX * 3];
+        const BYTE *in = src;
         const BYTE *buf_limit;
-        if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
+        if (in_size > LZMA_REQUIRED_INPUT_MAX) {
+            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
         }
         else {
-            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
+            if (finish_mode != LZMA_FINISH_END) {
                 return LZMA_STATUS_NEEDS_MORE_INPUT;
             }
-            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
+            memset(end_buf, 0, sizeof(end_buf));
+            memcpy(end_buf, src, in_size);
+            in = end_buf;
+            buf_limit = end_buf + in_size;
         }
-        p->buf = src;
+        p->buf = in;
 
         CHECK_F(LZMA_decodeReal2(p, dic_limit, buf_limit));
 
-        size_t const processed = (size_t)(p->buf - src);
+        size_t const processed = (size_t)(p->buf - in);
+        if (processed > in_size)
+            return FL2_ERROR(corruption_detected);
         (*src_len) += processed;
         src += processed;
         in_size -= processed;
-- 
2.43.0


From 460037a95e435028d5bf5dd1456e8a48b613ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 29/48] fix: report corruption when a multi-threaded block does
 not fill its output buffer (uninitialised memory was returned as content)

---
 fl2_decompress.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 8ad1995..319d2cb 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -766,6 +766,10 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
     if (decmt->canceled)
         return FL2_ERROR(canceled);
 
+    /* The block is corrupt if its chunks did not fill the output buffer */
+    if (dec->dic_pos != ti->bufSize)
+        return FL2_ERROR(corruption_detected);
+
     return FL2_error_no_error;
 }
 
-- 
2.43.0


From d84183b296a05b75c4b4b3d5ad5d0191c28275a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 30/48] fix: report corruption when a block decoded in parallel
 does not fill its output space

---
 fl2_decompress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 319d2cb..fd3c88d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -175,9 +175,10 @@ static void FL2_decompressCtxBlock(void* const jobDescription, ptrdiff_t const n
 
     blocks[n].res = LZMA2_decodeToDic(blocks[n].dec, blocks[n].unpackSize, blocks[n].src, &srcLen, blocks[n].finish);
 
-    /* If no error occurred, store into res the dic_pos value, which is the end of the decompressed data in the buffer */
+    /* If no error occurred, store into res the dic_pos value, which is the end of the decompressed data in the buffer.
+     * The block is corrupt if its chunks did not fill the space calculated from their headers. */
     if (!FL2_isError(blocks[n].res))
-        blocks[n].res = blocks[n].dec->dic_pos;
+        blocks[n].res = (blocks[n].dec->dic_pos == blocks[n].unpackSize) ? blocks[n].dec->dic_pos : FL2_ERROR(corruption_detected);
 }
 
 static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, const BYTE *const src, BYTE *const dst, size_t const dstCapacity, size_t const nbThreads)
-- 
2.43.0


From 1b192a9f8a6647ed051b5ad02d899432ebaa76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 31/48] fix: report corruption for a chunk with less packed
 data than the range coder needs (endless loop in MT streaming decompression)

---
 lzma2_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index d36d4fd..6ae4df2 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1135,10 +1135,10 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
-               1. need input but chunk is finished
+               1. need input but all packed data in the chunk was available
                2. have output space, input not needed, but nothing was written*/
             if (res == LZMA_STATUS_NEEDS_MORE_INPUT)
-                return (p->pack_size == 0) ? FL2_ERROR(corruption_detected) : res;
+                return (cur_finish_mode == LZMA_FINISH_END) ? FL2_ERROR(corruption_detected) : res;
             else if (in_cur == 0 && p->dic_pos == dic_pos)
                 return FL2_ERROR(corruption_detected);
         }
-- 
2.43.0


From 043b244e50f988ac0c0ef31e5e32b272aa08e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 32/48] fix: size the match buffers of a reused table by the
 current parameters, so that output does not depend on earlier operations

---
 radix_mf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index 68658d5..1a7c041 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -262,6 +262,8 @@ BYTE RMF_compatibleParameters(const FL2_matchTable* const tbl, const RMF_paramet
 size_t RMF_applyParameters(FL2_matchTable* const tbl, const RMF_parameters* const p, size_t const dict_reduce)
 {
     RMF_parameters params = RMF_clampParams(*p);
+    /* the buffer size must not depend on parameters of an earlier operation */
+    tbl->unreduced_dict_size = params.dictionary_size;
     RMF_reduceDict(&params, dict_reduce);
     return RMF_applyParameters_internal(tbl, &params);
 }
-- 
2.43.0


From a30388e562106dcb315a89b11cbe75cebaf295a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 33/48] fix: do not treat a hash chain which failed to allocate
 as present

---
 lzma2_enc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..bb81f76 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,11 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        /* the size must not suggest that the object exists */
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From 2b5e58d0c0c207d4332cc0c5852cdc220563bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 34/48] fix: include the dictionary buffers in
 FL2_estimateCStreamSize_usingCStream before initialization

---
 fl2_compress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 4420c56..72f68df 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1359,5 +1359,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compres
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_usingCStream(const FL2_CStream* fcs)
 {
-    return FL2_estimateCCtxSize_usingCCtx(fcs);
+    size_t const allocated = DICT_memUsage(&fcs->buf);
+    /* the dictionary buffers are not allocated until the stream is initialized */
+    size_t const required = fcs->params.rParams.dictionary_size << DICT_async(&fcs->buf);
+    return FL2_estimateCCtxSize_usingCCtx(fcs) - allocated + MAX(allocated, required);
 }
-- 
2.43.0


From 4f0050a5d1a63b098d44b94bce3e5c835b5863cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 35/48] fix: include the fixed size part of the match table in
 memory estimates

---
 radix_mf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index 1a7c041..7fd1a57 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -738,7 +738,7 @@ BYTE* RMF_getTableAsOutputBuffer(FL2_matchTable* const tbl, size_t const pos)
 
 size_t RMF_memoryUsage(size_t const dict_size, unsigned const buffer_resize, unsigned const thread_count)
 {
-    size_t size = (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
+    size_t size = sizeof(FL2_matchTable) + (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
     size_t const buf_size = RMF_calBufSize(dict_size, buffer_resize);
     size += ((buf_size - 1) * sizeof(RMF_buildMatch) + sizeof(RMF_builder)) * thread_count;
     return size;
-- 
2.43.0


From 57e2d3f3311f55b9e3a0b25aa0c8acb4aa280356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 36/48] fix: allocate the hash chain before compression if the
 current strategy needs it, not the strategy of the previous operation

---
 lzma2_enc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index bb81f76..8fb5139 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -869,7 +869,7 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
  */
 int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters* const options)
 {
-    if (enc->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
+    if (options->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
         return LZMA_hashCreate(enc, options->second_dict_bits);
 
     return 0;
-- 
2.43.0


From 0063f8f850ce25da6d71c990cf0ad6bfe3917b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 37/48] fix: report FL2_updateDictionary on a stream which is
 not initialised

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 72f68df..5a0548d 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1099,6 +1099,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dic
 
 FL2LIB_API size_t FL2LIB_CALL FL2_updateDictionary(FL2_CStream * fcs, size_t addedSize)
 {
+    if (!fcs->lockParams)
+        return FL2_ERROR(init_missing);
+
     if (DICT_update(&fcs->buf, addedSize))
         CHECK_F(FL2_compressStream_internal(fcs, 0));
 
-- 
2.43.0


From 39d653476ad93bdec5d0d5f6b651780cc7fba7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 38/48] fix: clear the failover state when an MT stream is
 given a valid property after an invalid one

---
 fl2_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index fd3c88d..4b7a1aa 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -623,6 +623,8 @@ static int FL2_lzma2DecMt_initProp(FL2_decMt *const decmt, BYTE prop)
         decmt->failState = 1;
         return 1;
     }
+    /* May be set if this is called again after an invalid property */
+    decmt->failState = 0;
     return 0;
 }
 
-- 
2.43.0


From 934f66cd74c120492611ba205462264caac0d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 39/48] verification hook: FL2_VERIF_SMALL_JOBS lowers the
 minimum block size per encoder thread

---
 lzma2_enc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lzma2_enc.h b/lzma2_enc.h
index 6e7dcbb..f013654 100644
--- a/lzma2_enc.h
+++ b/lzma2_enc.h
@@ -19,7 +19,11 @@ extern "C" {
 #define kFastDistBits 12U
 
 #define LZMA2_END_MARKER '\0'
+#ifdef FL2_VERIF_SMALL_JOBS /* verification only: several encoder threads for small blocks */
+#define ENC_MIN_BYTES_PER_THREAD 0x2000
+#else
 #define ENC_MIN_BYTES_PER_THREAD 0x1C000 /* Enough for 8 threads, 1 Mb dict, 2/16 overlap */
+#endif
 
 
 typedef struct LZMA2_ECtx_s LZMA2_ECtx;
-- 
2.43.0


From cf5d0e839d5954c2d2cddaf454b05f058e3761f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 40/48] fix: reset the match table after a cancel only when all
 builder threads have finished

---
 fl2_compress.c | 8 ++++++--
 radix_mf.c     | 7 ++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 5a0548d..53260e7 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -319,8 +319,10 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
     FL2POOL_waitAll(cctx->factory, 0);
 
-    if (err)
+    if (err) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
@@ -339,8 +341,10 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
 #else /* FL2_SINGLETHREAD */
 
-    if (err)
+    if (err) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
diff --git a/radix_mf.c b/radix_mf.c
index 7fd1a57..b92fed9 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -694,11 +694,8 @@ int RMF_buildTable(FL2_matchTable* const tbl,
     else
         RMF_bitpackBuildTable(tbl, job, multi_thread, block);
 
-    if (job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX) {
-        RMF_initListHeads(tbl);
-        return 1;
-    }
-    return 0;
+    /* If canceled, the table must be reset after all threads have finished */
+    return job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX;
 }
 
 void RMF_cancelBuild(FL2_matchTable * const tbl)
-- 
2.43.0


From 7f0537fd9e438994f319b37a1b4a89dacda203b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 41/48] fix: prefer C11 atomics, so that plain reads of
 counters shared with other threads are not data races

---
 atomic.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/atomic.h b/atomic.h
index aa4d977..2e17cbf 100644
--- a/atomic.h
+++ b/atomic.h
@@ -42,14 +42,6 @@ typedef LONG volatile FL2_atomic;
 #define FL2_atomic_add(n, a) InterlockedAdd(&n, a)
 #define FL2_nonAtomic_increment(n) (++n)
 
-#elif !defined(FL2_SINGLETHREAD) && defined(__GNUC__)
-
-typedef long FL2_atomic;
-#define ATOMIC_INITIAL_VALUE 0
-#define FL2_atomic_increment(n) __sync_fetch_and_add(&n, 1)
-#define FL2_atomic_add(n, a) __sync_fetch_and_add(&n, a)
-#define FL2_nonAtomic_increment(n) (n++)
-
 #elif !defined(FL2_SINGLETHREAD) && defined(__STDC_VERSION__) && (__STDC_VERSION__ >= 201112L) && !defined(__STDC_NO_ATOMICS__) /* C11 */
 
 #include <stdatomic.h>
@@ -60,6 +52,14 @@ typedef _Atomic long FL2_atomic;
 #define FL2_atomic_add(n, a) atomic_fetch_add(&n, a)
 #define FL2_nonAtomic_increment(n) (n++)
 
+#elif !defined(FL2_SINGLETHREAD) && defined(__GNUC__)
+
+typedef long FL2_atomic;
+#define ATOMIC_INITIAL_VALUE 0
+#define FL2_atomic_increment(n) __sync_fetch_and_add(&n, 1)
+#define FL2_atomic_add(n, a) __sync_fetch_and_add(&n, a)
+#define FL2_nonAtomic_increment(n) (n++)
+
 #else  /* No atomics */
 
 #	ifndef FL2_SINGLETHREAD
-- 
2.43.0


From e91dd68b5db6f29356d77196f896ef60fb17de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 42/48] fix: continue with the next buffer when MT
 decompression has failed over and a buffer decodes to nothing

---
 fl2_decompress.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 4b7a1aa..3e8c1ee 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -971,18 +971,22 @@ static size_t FL2_decompressFailedMt(FL2_DStream* const fds, FL2_outBuffer* cons
 
         CHECK_F(LZMA2_initDecoder(&fds->dec, decmt->prop, NULL, 0));
     }
-    FL2_decInbuf *const cur = decmt->cur;
+    /* A buffer may hold no more than the overlap, so continue until the output is full or the chain is used up */
+    while (decmt->head->length != 0) {
+        FL2_decInbuf *const cur = decmt->cur;
 
-    FL2_inBuffer temp;
-    temp.src = cur->inBuf;
-    temp.pos = decmt->curPos;
-    temp.size = cur->length;
+        FL2_inBuffer temp;
+        temp.src = cur->inBuf;
+        temp.pos = decmt->curPos;
+        temp.size = cur->length;
 
-    CHECK_F(FL2_decompressInput(fds, output, &temp));
+        CHECK_F(FL2_decompressInput(fds, output, &temp));
+
+        decmt->curPos = temp.pos;
 
-    decmt->curPos = temp.pos;
+        if (temp.pos + LZMA_REQUIRED_INPUT_MAX < temp.size)
+            return FL2_error_no_error;
 
-    if (temp.pos + LZMA_REQUIRED_INPUT_MAX >= temp.size) {
         if (cur->next == NULL) {
             /* The last buffer in the chain */
             fds->overlapSize = temp.size - temp.pos;
@@ -996,7 +1000,10 @@ static size_t FL2_decompressFailedMt(FL2_DStream* const fds, FL2_outBuffer* cons
         }
     }
 
-    return FL2_error_no_error;
+    if (fds->stage != FL2DEC_STAGE_DECOMP)
+        return FL2_error_no_error;
+
+    return FL2_decompressOverlappedInput(fds, output, input);
 }
 
 static size_t FL2_decompressStreamMt(FL2_DStream* const fds, FL2_outBuffer* const output, FL2_inBuffer* const input)
-- 
2.43.0


From b152be7c98761aef9c761421c14495619c83a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 43/48] fix: count the physical cores without exposing
 intermediate values to other threads

---
 util.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/util.c b/util.c
index d646606..4018de2 100644
--- a/util.c
+++ b/util.c
@@ -577,19 +577,24 @@ int UTIL_countPhysicalCores(void)
 
 #elif defined(__linux__)
 
+#include "atomic.h"
+
 /* parse /proc/cpuinfo
  * siblings / cpu cores should give hyperthreading ratio
  * otherwise fall back on sysconf */
 int UTIL_countPhysicalCores(void)
 {
-    static int numPhysicalCores = 0;
+    /* threads may get here at the same time, so only the final value is stored */
+    static FL2_atomic cachedCores = 0;
+    int numPhysicalCores = (int)cachedCores;
 
     if (numPhysicalCores != 0) return numPhysicalCores;
 
     numPhysicalCores = (int)sysconf(_SC_NPROCESSORS_ONLN);
     if (numPhysicalCores == -1) {
         /* value not queryable, fall back on 1 */
-        return numPhysicalCores = 1;
+        cachedCores = 1;
+        return 1;
     }
 
     /* try to determine if there's hyperthreading */
@@ -603,6 +608,7 @@ int UTIL_countPhysicalCores(void)
 
         if (cpuinfo == NULL) {
             /* fall back on the sysconf value */
+            cachedCores = numPhysicalCores;
             return numPhysicalCores;
         }
 
@@ -638,7 +644,9 @@ int UTIL_countPhysicalCores(void)
         }
 failed:
         fclose(cpuinfo);
-        return numPhysicalCores = numPhysicalCores / ratio;
+        numPhysicalCores /= ratio;
+        cachedCores = numPhysicalCores;
+        return numPhysicalCores;
     }
 }
 
-- 
2.43.0


From a913929f31c53df7536e37f26d11831174e45f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 44/48] fix: no division by zero when the system reports fewer
 siblings than cores

---
 util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.c b/util.c
index 4018de2..28f5cb8 100644
--- a/util.c
+++ b/util.c
@@ -639,7 +639,7 @@ int UTIL_countPhysicalCores(void)
                 goto failed;
             }
         }
-        if (siblings && cpu_cores) {
+        if (cpu_cores > 0 && siblings > cpu_cores) {
             ratio = siblings / cpu_cores;
         }
 failed:
-- 
2.43.0


From e26611ac2533dbf7c94837b1425bd6f23d9335cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 45/48] fix: a processor description line without a colon is
 not read through a null pointer

---
 util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.c b/util.c
index 28f5cb8..890aa84 100644
--- a/util.c
+++ b/util.c
@@ -618,7 +618,7 @@ int UTIL_countPhysicalCores(void)
             if (fgets(buff, BUF_SIZE, cpuinfo) != NULL) {
                 if (strncmp(buff, "siblings", 8) == 0) {
                     const char* const sep = strchr(buff, ':');
-                    if (*sep == '\0') {
+                    if (sep == NULL) {
                         /* formatting was broken? */
                         goto failed;
                     }
@@ -627,7 +627,7 @@ int UTIL_countPhysicalCores(void)
                 }
                 if (strncmp(buff, "cpu cores", 9) == 0) {
                     const char* const sep = strchr(buff, ':');
-                    if (*sep == '\0') {
+                    if (sep == NULL) {
                         /* formatting was broken? */
                         goto failed;
                     }
-- 
2.43.0


From f7043999a8b0f9ae8a93464f1d67948977ee72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 46/48] fix: do not continue an MT stream whose buffered data
 was discarded by a cancel or error

FL2_cancelDStream() and the error paths free the input and output buffered by
the MT decoder, but a later call of FL2_decompressStream() continued without
it and could report the stream complete with part of the content missing.
---
 fl2_decompress.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 3e8c1ee..0e5643b 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -393,7 +393,8 @@ typedef enum
     FL2DEC_STAGE_MT_WRITE,
 #endif
     FL2DEC_STAGE_HASH,
-    FL2DEC_STAGE_FINISHED
+    FL2DEC_STAGE_FINISHED,
+    FL2DEC_STAGE_ABANDONED
 } FL2_decStage;
 
 #ifndef FL2_SINGLETHREAD
@@ -686,6 +687,16 @@ static FL2_decMt *FL2_lzma2DecMt_create(unsigned maxThreads)
     return decmt;
 }
 
+/* Free the MT buffers of an unfinished stream. The input and output in them is lost,
+ * so the stream cannot be continued without initialization.
+ */
+static void FL2_abandonMt(FL2_DStream *const fds)
+{
+    FL2_lzma2DecMt_cleanup(fds->decmt);
+    if (fds->decmt != NULL && (fds->stage == FL2DEC_STAGE_DECOMP || fds->stage == FL2DEC_STAGE_MT_WRITE))
+        fds->stage = FL2DEC_STAGE_ABANDONED;
+}
+
 /* Read chunk headers and advance inBlock->endPos to the next chunk
  * until it points beyond the available data.
  * Add the size of each chunk to inBlock->unpackSize
@@ -1183,7 +1194,7 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
         if (fds->decmt != NULL)
             fds->decmt->canceled = 0;
     }
-    FL2_lzma2DecMt_cleanup(fds->decmt);
+    FL2_abandonMt(fds);
 #endif
 }
 
@@ -1233,6 +1244,9 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
     size_t const prevOut = output->pos;
     size_t const prevIn = input->pos;
 
+    if (fds->stage == FL2DEC_STAGE_ABANDONED)
+        return FL2_ERROR(init_missing);
+
     /* The MT decoder may have buffered input, but not before the property byte is known */
     if (input->pos < input->size
 #ifndef FL2_SINGLETHREAD
@@ -1249,7 +1263,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         if (decmt) {
             size_t res = FL2_decompressStreamMt(fds, output, input);
             if (FL2_isError(res)) {
-                FL2_lzma2DecMt_cleanup(decmt);
+                FL2_abandonMt(fds);
                 return res;
             }
         }
@@ -1291,7 +1305,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         if (fds->loopCount > 2) {
 #ifndef FL2_SINGLETHREAD
             /* This may be decompressThread so it must not wait for itself in FL2_cancelDStream() */
-            FL2_lzma2DecMt_cleanup(decmt);
+            FL2_abandonMt(fds);
 #endif
             return FL2_ERROR(buffer);
         }
-- 
2.43.0


From 48d06c595d6be8641d55f7be9bc709e2875eba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 47/48] fix: do not switch dictionary buffers when the current
 one is empty (the alternate may be in use by the compressor)

---
 dict_buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dict_buffer.c b/dict_buffer.c
index 06d9a4f..812561d 100644
--- a/dict_buffer.c
+++ b/dict_buffer.c
@@ -160,7 +160,8 @@ void DICT_getBlock(DICT_buffer * const buf, FL2_dataBlock * const block)
 /* Shift occurs when all is processed and end is beyond the overlap size */
 int DICT_needShift(DICT_buffer * const buf)
 {
-    if (buf->start < buf->end)
+    /* An empty buffer has nothing to shift, and the alternate may still be in use by the compressor */
+    if (buf->start < buf->end || buf->end == 0)
         return 0;
     /* Reset the dict if the next compression cycle would exceed the reset interval */
     size_t overlap = (buf->total + buf->size - buf->overlap > buf->reset_interval) ? 0 : buf->overlap;
@@ -176,7 +177,7 @@ int DICT_async(const DICT_buffer * const buf)
  * if it exists */
 void DICT_shift(DICT_buffer * const buf)
 {
-    if (buf->start < buf->end)
+    if (buf->start < buf->end || buf->end == 0)
         return;
 
     size_t overlap = buf->overlap;
-- 
2.43.0


From 49cc91305617a15a2524b9b01a35772bd6add449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 48/48] fix: count progress made by a call which times out when
 detecting a stalled compression stream

---
 fl2_compress.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 53260e7..bd67810 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1071,7 +1071,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressStream(FL2_CStream* fcs, FL2_outBuffer
     if (output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
 
-    CHECK_F(FL2_compressStream_input(fcs, input));
+    size_t const res = FL2_compressStream_input(fcs, input);
+    /* Progress made by a call which times out is also progress */
+    if (prevIn != input->pos || (output != NULL && prevOut != output->pos))
+        fcs->loopCount = 0;
+    CHECK_F(res);
 
     if(output != NULL && FL2_hasOutput(fcs))
         FL2_copyCStreamOutput(fcs, output);
@@ -1255,6 +1259,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
         FL2_copyCStreamOutput(fcs, output);
 
     size_t res = FL2_flushStream_internal(fcs, 0);
+    if (output != NULL && prevOut != output->pos)
+        fcs->loopCount = 0;
     CHECK_F(res);
 
     if (output != NULL && res != 0) {
@@ -1278,6 +1284,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_endStream(FL2_CStream* fcs, FL2_outBuffer *out
         FL2_copyCStreamOutput(fcs, output);
 
     size_t res = FL2_flushStream_internal(fcs, 1);
+    if (output != NULL && prevOut != output->pos)
+        fcs->loopCount = 0;
     CHECK_F(res);
 
     if (!fcs->endMarked && !DICT_hasUnprocessed(&fcs->buf)) {
-- 
2.43.0

