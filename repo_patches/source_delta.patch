From 116eb3a4548b35186b7f9b47a1242436826ea720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 1/6] fix: keep the AVX2 S-box macro when the alternative S-box
 code is selected

With --enable-avx2 --enable-alt-sbox the generic alternative S-box macro
replaced the AVX2 one, whose output layout BS_LOAD_DEINTERLEAVE_8 depends on,
and every batch operation produced wrong data.
---
 src/dvbcsa_bs_block.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..2108b5f 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -89,6 +89,8 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
     0x388c, 0x1a89, 0xe166, 0x7ffd, 0xccb2, 0x5aa9, 0x9e9b, 0x09c0,
   };
 
+#ifndef BLOCK_SBOX_PERMUTE
+
 #ifdef DVBCSA_USE_ALT_SBOX
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
@@ -119,8 +121,6 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
 
 #else
 
-#ifndef BLOCK_SBOX_PERMUTE
-
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
     { \
     dvbcsa_u8_aliasing_t *src = (dvbcsa_u8_aliasing_t *)in_buf; \
@@ -140,10 +140,10 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
       } \
     }
 
-#endif /* ifndef BLOCK_SBOX_PERMUTE */
-
 #endif /* USE_ALT_SBOX */
 
+#endif /* ifndef BLOCK_SBOX_PERMUTE */
+
 #else /* no BS_LOAD_DEINTERLEAVE_8 */
 
 #ifdef DVBCSA_USE_ALT_SBOX
-- 
2.43.0


From 3add74210ae48c15de8bdc285a4560e51522b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 2/6] fix: do not read past the S-box table in the AVX2 gather

_mm256_i32gather_epi32 reads four bytes at each 16-bit table entry, so index
255 read two bytes past the end of the table. Add one padding entry.
---
 src/dvbcsa_bs_avx2.h  | 3 ++-
 src/dvbcsa_bs_block.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 8398943..245711b 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -58,7 +58,8 @@ typedef __m256i dvbcsa_bs_word_t;
       var_hi = _mm256_load_si256((ptr) + 1); \
       }
 
-static const uint16_t dvbcsa_block_sbox_perm[256];
+/* the 32-bit gather below reads one entry past the one it uses */
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1];
 
 static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
                                            dvbcsa_bs_word_t *dst)
diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 2108b5f..7190397 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -53,7 +53,7 @@
   LSB: sbox output
   MSB: permuted sbox output
 */
-static const uint16_t dvbcsa_block_sbox_perm[256] =
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1] =
   {
     0xd43a, 0xd9ea, 0x5168, 0xfdfe, 0xc633, 0x5be9, 0x1888, 0x941a,
     0x8a83, 0xbbcf, 0x4be1, 0xf77f, 0xdcba, 0xc9e2, 0x5438, 0x8412,
-- 
2.43.0


From 5a7308cb6ceebe9a0082b297c1fa84421eeb78e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 3/6] fix: copy at most maxlen bytes of each packet in batch
 operations

Packets longer than DVBCSA_BS_MAX_PACKET_LEN were copied whole into the fixed
size packet buffer, overwriting the following packets and the stack. Data past
maxlen is not processed, so it does not need to be copied.
---
 src/dvbcsa_bs_algo.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..c85c0ef 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -47,8 +47,10 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      unsigned int len = pcks[i].len < maxlen ? pcks[i].len : maxlen;
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +64,11 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    {
+      unsigned int len = pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen;
+
+      memcpy(pcks[i].data, block, len);
+    }
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0


From 058c0452938595d05e68e128a22cfa6d257bc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 4/6] fix: encrypt all blocks of payloads of 2^31 bytes and
 more

The block loop of dvbcsa_encrypt used a signed index, which is negative from
the start when len >= 2^31 + 16, so that all blocks but the last were left
without block encryption.
---
 src/dvbcsa_algo.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dvbcsa_algo.c b/src/dvbcsa_algo.c
index 268f03c..c36739b 100644
--- a/src/dvbcsa_algo.c
+++ b/src/dvbcsa_algo.c
@@ -50,7 +50,7 @@ void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
 {
   unsigned int  alen = len & (unsigned)~0x7;
-  int       i;
+  unsigned int  i;
 
   if (len < 8)
     return;
@@ -58,10 +58,10 @@ void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 #ifndef DVBCSA_DISABLE_BLOCK
   dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);
 
-  for (i = alen - 16; i >= 0; i -= 8)
+  for (i = alen - 8; i > 0; i -= 8)
     {
-      dvbcsa_xor_64(data + i, data + i + 8);
-      dvbcsa_block_encrypt(key->sch, data + i, data + i);
+      dvbcsa_xor_64(data + i - 8, data + i);
+      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);
     }
 #endif
 
-- 
2.43.0


From c26ebfbaadc4761bf4a67eb0c9531a4de9537d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 5/6] fix: avoid signed overflow in dvbcsa_bs_key_set on 32-bit
 words

kk[i] is promoted to int and kk[i] * 0x01010101 overflows it for bytes >= 128.
---
 src/dvbcsa_bs_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index e2fcf55..77d871e 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -46,7 +46,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
   for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
     {
 #if BS_BATCH_SIZE == 32
-      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101;
+      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101U;
 
 #elif BS_BATCH_SIZE == 64
       *(dvbcsa_u64_aliasing_t *)(key->block + i) = kk[i] * 0x0101010101010101ULL;
-- 
2.43.0


From c9934e173ef30604ed0e88aa13bacf633617e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 6/6] fix: make the AltiVec backend compile

It initialises 32-bit element vectors from byte vectors and passes them as
shift counts, which compilers reject, and the transpositions' shifts by 8, 16
and 32 have no count defined, so --enable-altivec cannot be built.
---
 src/dvbcsa_bs_altivec.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dvbcsa_bs_altivec.h b/src/dvbcsa_bs_altivec.h
index 72a3dbe..68d3324 100644
--- a/src/dvbcsa_bs_altivec.h
+++ b/src/dvbcsa_bs_altivec.h
@@ -59,15 +59,15 @@ static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t
         case 0x04:
                 return (dvbcsa_bs_word_t)vec_splat_u8(4);
         case 0x10: {
-                dvbcsa_bs_word_t x = vec_splat_u8(8);
+                vector unsigned char x = vec_splat_u8(8);
                 return (dvbcsa_bs_word_t)vec_add(x,x);
         }
         case 0x29: {
-                dvbcsa_bs_word_t x = vec_splat_u8(10);
-                return (dvbcsa_bs_word_t)vec_add(vec_splat_u8(0x1),vec_rl(x,x));
+                vector unsigned char x = vec_splat_u8(10);
+                return (dvbcsa_bs_word_t)vec_add(vec_splat_u8(0x1),vec_rl(x,vec_splat_u8(2)));
         }
         case 0x40: {
-                dvbcsa_bs_word_t x = vec_splat_u8(4);
+                vector unsigned char x = vec_splat_u8(4);
                 return (dvbcsa_bs_word_t)vec_rl(x,x);
         }
         case 0x80: {
@@ -97,9 +97,12 @@ static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t
 #define SHVAL_13 BS_VAL8(0d)
 #define SHVAL_14 BS_VAL8(0e)
 #define SHVAL_7 BS_VAL8(07)
+#define SHVAL_8 BS_VAL8(08)
+#define SHVAL_16 BS_VAL8(10)
+#define SHVAL_32 BS_VAL8(20)
 
-#define BS_SHL(a, n)    ({ dvbcsa_bs_word_t x = SHVAL_##n; vec_sll(vec_slo((a), x), x); })
-#define BS_SHR(a, n)    ({ dvbcsa_bs_word_t x = SHVAL_##n; vec_srl(vec_sro((a), x), x); })
+#define BS_SHL(a, n)    ({ vector unsigned char x = (vector unsigned char)SHVAL_##n; vec_sll(vec_slo((a), x), x); })
+#define BS_SHR(a, n)    ({ vector unsigned char x = (vector unsigned char)SHVAL_##n; vec_srl(vec_sro((a), x), x); })
 
 #define BS_EXTRACT8(a, n) ((dvbcsa_u8_aliasing_t *)&(a))[15 - (n)]
 
-- 
2.43.0

