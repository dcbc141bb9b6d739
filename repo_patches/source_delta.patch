From c712eabc249ef0a5838d86e2a709b33bdcfa194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 01/28] fix: padding helpers write to the caller's buffer; CBC
 pads into a buffer of the padded size and refuses partial blocks

---
 include/wbcrypto/utils.h |  8 ++++----
 src/modes/cbc128.c       | 19 ++++++++++++++-----
 src/utils/padding.c      | 12 ++++--------
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/wbcrypto/utils.h b/include/wbcrypto/utils.h
index 730ac81..055d12e 100644
--- a/include/wbcrypto/utils.h
+++ b/include/wbcrypto/utils.h
@@ -15,7 +15,7 @@
  * reduce: delete bits larger than 16byte
  * @param src initial key
  * @param srclen initial key length
- * @param dst padding key, must be init
+ * @param dst padding key, must have room for 16 bytes
  * @return padding key length
  */
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst);
@@ -26,7 +26,7 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
  * reduce: delete bits larger than 16byte
  * @param src initial key
  * @param srclen initial key length
- * @param dst padding key, must be init
+ * @param dst padding key, must have room for 16 bytes
  * @return padding key length
  */
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst);
@@ -35,7 +35,7 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
  * expand the msg with #pkcs7 standard
  * @param src msg
  * @param srclen msg length
- * @param dst padding msg, must be init
+ * @param dst padding msg, must have room for the padded length
  * @return padding msg length
  */
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst);
@@ -52,7 +52,7 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen);
  * remove the msg with #pkcs7 expand, return the removed length
  * @param src expanded msg
  * @param srclen expanded msg length
- * @param dst removed msg, must be init
+ * @param dst removed msg, must have room for the removed length
  * @return removed msg length
  */
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst);
diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..618fd77 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,15 +4,20 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
-    len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
+    int ret=0;
+    size_t n, len = WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen);
+    unsigned char *padbuf = NULL, *afin;
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }
+    padbuf = (unsigned char *)malloc(len+1);
+    if(padbuf==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    afin = padbuf;
+    WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     *use_olen = len;
 
-    size_t n;
     const unsigned char *iv = ivec;
 
     while (len >= 16) {
@@ -40,6 +45,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padbuf);
     return ret;
 }
 
@@ -47,9 +53,12 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
+    }else if(inlen%16!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_ERR_BAD_INPUT_DATA);
     }else{
         len=inlen;
     }
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..46cd617 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -61,12 +58,11 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    int pad_num = srclen == 0 ? 0 : (int)src[srclen-1], afpad_len;
+    if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
@@ -78,8 +74,8 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    int pad_num = srclen == 0 ? 0 : src[srclen-1], afpad_len;
+    if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-- 
2.43.0


From 5a0dab42978a7627a277ae32aca2767f92f5a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 02/28] fix: AES contexts normalise short keys and keep a
 decryption schedule

---
 include/wbcrypto/aes.h | 1 +
 src/aes/aes.c          | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..bbefd17 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -10,6 +10,7 @@ extern "C" {
 
     struct aes_context {
         AES_KEY aes_key;
+        AES_KEY aes_dec_key;
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..77a2ada 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,10 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +30,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From 0ef6c2439fbf88cb0d7444269413de4a1ff44667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 03/28] fix: white-box AES variants and fpe_app normalise keys
 shorter than 16 bytes

---
 src/fpe_app/init.c                | 13 +++++--------
 src/wbaes/wbaes.c                 |  4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   |  4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c |  4 +++-
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..ca1161b 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,29 +5,26 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
-    uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
-        WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
+        WBCRYPTO_sm4_init_key(sm4_ctx, key, keylen);
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
-        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key));
+        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, key, keylen);
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        WBCRYPTO_aes_init_key(aes_ctx, key, keylen);
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
-        WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key));
+        WBCRYPTO_wbaes_gen_table(wbaes_ctx, key, keylen);
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        WBCRYPTO_aes_init_key(aes_ctx, key, keylen);
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..8b034fc 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -19,8 +19,10 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
+    uint8_t input_key[16];
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..1126de4 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -4,8 +4,10 @@
 void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, const uint8_t *key, size_t keylen)
 {
     int i, j, x, y, k;
+    uint8_t input_key[16];
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..d62fa7c 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -30,8 +30,10 @@ WBCRYPTO_wbaes_wbgcm_mask_context* WBCRYPTO_wbaes_wbgcm_mask_init_table(){
 void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *ctx, const uint8_t *key, size_t keylen)
 {
     int i, j, x, y, k;
+    uint8_t input_key[16];
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From e40edc26c3fd6f2d8b80c5a9ec7a3c30b7d2e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:18 +0000
Subject: [PATCH 04/28] fix: GCM resets the AAD length with a new IV,
 accumulates AAD over calls and refuses tags over 16 bytes

---
 src/modes/gcm128.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..f9f832e 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
@@ -145,7 +146,7 @@ int WBCRYPTO_gcm_aad(WBCRYPTO_gcm_context *ctx,
     block128_f block = ctx->block;
     void *key = ctx->key;
 
-    ctx->add_len = len;
+    ctx->add_len += len;
     p = aad;
     while( len > 0 ) {
         use_len = ( len < 16 ) ? len : 16;
@@ -162,7 +163,8 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -211,7 +213,8 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -265,6 +268,9 @@ int WBCRYPTO_gcm_finish(WBCRYPTO_gcm_context *ctx, unsigned char *tag, size_t le
     uint64_t orig_add_len = ctx->add_len * 8;
     size_t i;
 
+    if( len > 16 ) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_finish",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
     if( len != 0 ) memcpy( tag, ctx->base_ectr, len );
 
     if( orig_len || orig_add_len ) {
-- 
2.43.0


From b28edd4f7ba934261bb9d8b3b740f9608549425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:33 +0000
Subject: [PATCH 05/28] fix: parallel GCM uses a private inner index, hashes
 ciphertext when decrypting, handles empty input and frees its counters

---
 src/modes/gcm_parallel.c | 46 +++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..c4fba80 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -16,7 +17,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
@@ -33,7 +34,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
@@ -63,6 +64,9 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
         gcm_mult(ctx, ctx->buf, ctx->buf);
     }
+    for (i = 0; i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
@@ -71,7 +75,8 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -83,7 +88,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
     for (i = 0; i < len_s; i++)
@@ -95,12 +100,26 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel (before decrypting: out may be in)
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
@@ -116,20 +135,9 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             }
         }
     }
-    //unable to parallel
     for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
+        free(y_arr[i]);
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From c11ec3f0178ca6fa5bf8a446a3d620636aec1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 06/28] fix: white-box GCM tags: same tag in both directions,
 also for empty messages; new IV resets the AAD length; small buffers report 0

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 36 ++++++++++++++-------------
 src/wbaes/wbaes_wbgcm_mask_mode.c | 41 +++++++++++++++++++------------
 2 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..f984116 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
@@ -140,7 +141,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
     block128_f block = ctx->block;
     void *key = ctx->key;
 
-    ctx->add_len = len;
+    ctx->add_len += len;
     p = aad;
     while (len > 0) {
         use_len = (len < 16) ? len : 16;
@@ -155,9 +156,9 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -205,9 +206,9 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -261,24 +262,25 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
     WBCRYPTO_wbaes_wbgcm_ee_context *key = ctx->key;
     unsigned char buff_change[16];     // counter-mode cipher output for XORing
 
+    if (len > 16) {
+        return 0;
+    }
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
-        memset(work_buf, 0x00, 16);
+    memset(work_buf, 0x00, 16);
 
-        PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-        PUT_UINT32_BE((orig_add_len), work_buf, 4);
-        PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
-        PUT_UINT32_BE((orig_len), work_buf, 12);
+    PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
+    PUT_UINT32_BE((orig_add_len), work_buf, 4);
+    PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
+    PUT_UINT32_BE((orig_len), work_buf, 12);
 
-        for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
-        wbgcm_mult(ctx, ctx->buf, ctx->buf);
+    for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
+    wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
-        for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+    for (i = 0; i < len; i++) {
+        buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
 //            tag[i] ^= ctx->buf[i];
-            tag[i] = key->GBOX_TypeIII[i][tag[i]][buff_change[i]];
-        }
+        tag[i] = key->GBOX_TypeIII[i][tag[i]][buff_change[i]];
     }
     return 1;
 }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..7cd6749 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
@@ -153,7 +154,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
     block128_f block = ctx->block;
     void *key = ctx->key;
 
-    ctx->add_len = len;
+    ctx->add_len += len;
     p = aad;
     while (len > 0) {
         use_len = (len < 16) ? len : 16;
@@ -168,9 +169,9 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -223,9 +224,9 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -284,23 +285,31 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
     WBCRYPTO_wbaes_wbgcm_mask_context *key = ctx->key;
     unsigned char buff_change[16];     // counter-mode cipher output for XORing
 
+    if (len > 16) {
+        return 0;
+    }
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
-        memset(work_buf, 0x00, 16);
+    memset(work_buf, 0x00, 16);
 
-        PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-        PUT_UINT32_BE((orig_add_len), work_buf, 4);
-        PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
-        PUT_UINT32_BE((orig_len), work_buf, 12);
+    PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
+    PUT_UINT32_BE((orig_add_len), work_buf, 4);
+    PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
+    PUT_UINT32_BE((orig_len), work_buf, 12);
 
-        for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
-        wbgcm_mult(ctx, ctx->buf, ctx->buf);
+    for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
+    wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
-        for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+    for (i = 0; i < len; i++) {
+        buff_change[i] = ctx->buf[i];
+        if (!key->encMode) { //dec mode: its boxes take and give the masked form
+            buff_change[i] = MatMulNumM8(key->L1[i], buff_change[i]);
+        }
+        buff_change[i] = key->GBOX_TypeI[i][buff_change[i]];
 //            tag[i] ^= ctx->buf[i];
-            tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+        tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+        if (!key->encMode) {
+            tag[i] = MatMulNumM8(key->L1[i], tag[i]);
         }
     }
     return 1;
-- 
2.43.0


From 514956a175d883c200fe877e1ef97ea8da9294b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 07/28] fix: file decryption verifies the tag and size and all
 file I/O errors are reported

---
 src/modes/gcmfile.c               | 102 ++++++++++++++++++++----------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 102 ++++++++++++++++++++----------
 src/wbaes/wbaes_wbgcm_mask_file.c | 102 ++++++++++++++++++++----------
 3 files changed, 201 insertions(+), 105 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..18300c9 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -34,12 +34,16 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    int len_outfpath, block_size;
+    long file_size;
+    size_t read_size = 0, size_val;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -58,82 +62,96 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
-    memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0 || fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+    size_val = file_size;
+    memcpy(size_buf, &size_val, sizeof(size_t));
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp) || read_size != size_val)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
+    read_size = 0;
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size += block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(tmpfp) || read_size != size_val)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    int i, block_size;
+    uint64_t file_size = 0, read_size = 0;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    unsigned char calc_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
-
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    for (i = sizeof(size_t) - 1; i >= 0; i--)
+        file_size = (file_size << 8) | size_buf[i];
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -144,30 +162,44 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
 
+    // Invalid tag
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, calc_tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(calc_tag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
+
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL) {
+        if (fclose(outfp) != 0)
+            ret = 0;
+        // never leave unauthenticated plaintext behind
+        if (ret == 0)
+            remove(outfpath);
+    }
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..00753b2 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,13 +2,17 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, block_size;
+    long file_size;
+    size_t read_size = 0, size_val;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -27,83 +31,97 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
-    memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0 || fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+    size_val = file_size;
+    memcpy(size_buf, &size_val, sizeof(size_t));
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp) || read_size != size_val)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
+    read_size = 0;
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size += block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(tmpfp) || read_size != size_val)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    int i, block_size;
+    uint64_t file_size = 0, read_size = 0;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    unsigned char calc_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
-
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    for (i = sizeof(size_t) - 1; i >= 0; i--)
+        file_size = (file_size << 8) | size_buf[i];
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,29 +132,43 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
 
+    // Invalid tag
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, calc_tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(calc_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
+
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL) {
+        if (fclose(outfp) != 0)
+            ret = 0;
+        // never leave unauthenticated plaintext behind
+        if (ret == 0)
+            remove(outfpath);
+    }
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..58a0575 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,13 +2,17 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    int len_outfpath, block_size;
+    long file_size;
+    size_t read_size = 0, size_val;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -27,83 +31,97 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
-    memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_size = ftell(infp)) < 0 || fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+    size_val = file_size;
+    memcpy(size_buf, &size_val, sizeof(size_t));
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp) || read_size != size_val)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
+    read_size = 0;
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+        read_size += block_size;
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(tmpfp) || read_size != size_val)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    int i, block_size;
+    uint64_t file_size = 0, read_size = 0;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    unsigned char calc_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
-
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    for (i = sizeof(size_t) - 1; i >= 0; i--)
+        file_size = (file_size << 8) | size_buf[i];
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,29 +132,43 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
 
+    // Invalid tag
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, calc_tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(calc_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
+
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL) {
+        if (fclose(outfp) != 0)
+            ret = 0;
+        // never leave unauthenticated plaintext behind
+        if (ret == 0)
+            remove(outfpath);
+    }
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 2f55e015b77455f89e878c57e5d2a205b7ef9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:31 +0000
Subject: [PATCH 08/28] fix: white-box SM4 dummy rounds are identity rounds for
 every placement

---
 src/wbsm4/wbsm4_gen.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..df198f4 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    int point = 0;
+    for (i = 0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,12 +226,15 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From a66ccaee3c6eac0fa282bb56ead6b64c5980dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 09/28] fix: key store reports open, read, write and close
 failures

---
 src/utils/keystore.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..5606f74 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -2,28 +2,36 @@
 
 int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(ctx_len != 0 && fread(ctx , ctx_len, 1, rkey) != 1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey != NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
 int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(ctx_len != 0 && fwrite( ctx, ctx_len, 1, wkey) != 1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey != NULL && fclose(wkey) != 0){
+        ret=0;
+    }
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 3af4fa2fc82fa52c50636b0958d1654db25a5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 10/28] fix: white-box SM4 key import allocates for the
 imported round count, bytes export is self-contained, bad keys are refused

---
 src/wbsm4/wbsm4_exkey.c | 173 +++++++++++++++++++++++++++++++++-------
 1 file changed, 145 insertions(+), 28 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..49f3ae0 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -1,15 +1,96 @@
 #include "wbsm4_local.h"
 
+// exported key: name, rounds, encmode, then the tables
+#define KEY_HEAD_LEN ((long)(16 + 2*sizeof(int)))
+
+static int valid_rounds(int rounds){
+    return rounds>=32 && (rounds-32)%4==0;
+}
+
+static long tables_len(int rounds){
+    return ((long)rounds*(3*4 + 3*4) + 2*4*4) * 256 * (long)sizeof(uint32_t);
+}
+
+static void free_tables(WBCRYPTO_wbsm4_context *ctx){
+    int i,j,k;
+    for (i = 0; i < ctx->rounds; i++) {
+        for (j = 0; j < 3; j++) {
+            for (k = 0; k < 4; k++) {
+                free(ctx->MM[i][j][k]);
+            }
+            free(ctx->MM[i][j]);
+        }
+        for (j = 0; j < 4; j++) {
+            free(ctx->CC[i][j]);
+            free(ctx->DD[i][j]);
+            free(ctx->Table[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+}
+
+static void discard(WBCRYPTO_wbsm4_context *ctx){
+    if(ctx != NULL){
+        free_tables(ctx);
+        free(ctx);
+    }
+}
+
+// the importing context takes over the tables of src, whatever size its own had
+static void adopt(WBCRYPTO_wbsm4_context *ctx, WBCRYPTO_wbsm4_context *src){
+    free_tables(ctx);
+    *ctx = *src;
+    free(src);
+}
+
+static void copy_table(uint32_t *table, uint8_t **p, int store){
+    if(store){
+        memcpy(*p, table, 256*sizeof(uint32_t));
+    }else{
+        memcpy(table, *p, 256*sizeof(uint32_t));
+    }
+    *p += 256*sizeof(uint32_t);
+}
+
+static void copy_tables(WBCRYPTO_wbsm4_context *ctx, uint8_t *p, int store){
+    int i,j,k;
+    for (i = 0; i < ctx->rounds; i++) {
+        for (j = 0; j < 3; j++) {
+            for (k = 0; k < 4; k++) {
+                copy_table(ctx->MM[i][j][k], &p, store);
+            }
+        }
+        for (j = 0; j < 4; j++) {
+            copy_table(ctx->CC[i][j], &p, store);
+            copy_table(ctx->DD[i][j], &p, store);
+            copy_table(ctx->Table[i][j], &p, store);
+        }
+    }
+    for (i = 0; i < 4; i++) {
+        for (j = 0; j < 4; j++) {
+            copy_table(ctx->SE[i][j], &p, store);
+            copy_table(ctx->FE[i][j], &p, store);
+        }
+    }
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
     int i,j,k,l;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
     }
-    fputs("DummyRound-WBSM4", wkey);
-    if(!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
+    if(fputs("DummyRound-WBSM4", wkey) < 0
+        ||!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
         ||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
     }
@@ -43,13 +124,17 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey != NULL && fclose(wkey) != 0){
+        ret=0;
+    }
     return ret;
 }
 
 int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
+    WBCRYPTO_wbsm4_context *tmp = NULL;
+    int rounds, encmode;
     int i,j,k,l;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
@@ -57,58 +142,75 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     char algname[17];
     memset(algname, 0, sizeof(algname));
-    fgets(algname, 17, rkey);
-    if(strcmp(algname, "DummyRound-WBSM4")!=0){
+    if(fgets(algname, 17, rkey)==NULL || strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
-       ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!fread(&encmode, sizeof(int), 1, rkey)
+       ||!valid_rounds(rounds)
+       ||fseek(rkey, 0, SEEK_END)!=0
+       ||ftell(rkey)!=KEY_HEAD_LEN+tables_len(rounds)
+       ||fseek(rkey, KEY_HEAD_LEN, SEEK_SET)!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    for (i = 0;  i< ctx->rounds; i++) {
+    tmp = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4);
+    if(tmp==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    for (i = 0;  i< rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
                 for (l = 0;  l<256 ; l++) {
-                    if(!fread(&ctx->MM[i][j][k][l], sizeof(uint32_t), 1, rkey)){
+                    if(!fread(&tmp->MM[i][j][k][l], sizeof(uint32_t), 1, rkey)){
                         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
                     }
                 }
             }
         }
     }
-    for (i = 0;  i< ctx->rounds; i++) {
+    for (i = 0;  i< rounds; i++) {
         for (j = 0;  j<4 ; j++) {
             for (k = 0;  k<256 ; k++) {
                 if(i<4) {
-                    if(!fread(&ctx->SE[i][j][k], sizeof(uint32_t), 1, rkey)
-                       ||!fread(&ctx->FE[i][j][k], sizeof(uint32_t), 1, rkey)){
+                    if(!fread(&tmp->SE[i][j][k], sizeof(uint32_t), 1, rkey)
+                       ||!fread(&tmp->FE[i][j][k], sizeof(uint32_t), 1, rkey)){
                         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
                     }
                 }
-                if(!fread(&ctx->CC[i][j][k], sizeof(uint32_t), 1, rkey)
-                   ||!fread(&ctx->DD[i][j][k], sizeof(uint32_t), 1, rkey)
-                   ||!fread(&ctx->Table[i][j][k], sizeof(uint32_t), 1, rkey)){
+                if(!fread(&tmp->CC[i][j][k], sizeof(uint32_t), 1, rkey)
+                   ||!fread(&tmp->DD[i][j][k], sizeof(uint32_t), 1, rkey)
+                   ||!fread(&tmp->Table[i][j][k], sizeof(uint32_t), 1, rkey)){
                     WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
                 }
             }
         }
     }
+    adopt(ctx, tmp);
+    tmp = NULL;
     ret=1;
 cleanup:
-    fclose(rkey);
+    discard(tmp);
+    if(rkey != NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
-    int ks_len = 0;
+    uint32_t ks_len = sizeof(uint32_t) + KEY_HEAD_LEN + tables_len(ctx->rounds);
 
-    ks_len = sizeof(struct wbsm4_context);
-    ks_len += sizeof(uint32_t);
     *kstream = malloc(ks_len);
-    *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
-    memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    if(*kstream==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    uint8_t *ds = (uint8_t *)*kstream;
+    memcpy(ds, &ks_len, sizeof(uint32_t));
+    ds += sizeof(uint32_t);
+    memcpy(ds, "DummyRound-WBSM4", 16);
+    memcpy(ds + 16, &ctx->rounds, sizeof(int));
+    memcpy(ds + 16 + sizeof(int), &ctx->encmode, sizeof(int));
+    copy_tables((WBCRYPTO_wbsm4_context *)ctx, ds + KEY_HEAD_LEN, 1);
 
     ret=1;
 cleanup:
@@ -117,14 +219,29 @@ cleanup:
 
 int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
     int ret=0;
+    uint32_t ks_len;
+    int rounds, encmode;
+    WBCRYPTO_wbsm4_context *tmp;
 
-    const uint8_t  *ptr = kstream;
+    uint8_t *ptr = (uint8_t *)kstream;
+    memcpy(&ks_len, ptr, sizeof(uint32_t));
     ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    if(ks_len < sizeof(uint32_t) + KEY_HEAD_LEN || memcmp(ptr, "DummyRound-WBSM4", 16)!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+    memcpy(&rounds, ptr + 16, sizeof(int));
+    memcpy(&encmode, ptr + 16 + sizeof(int), sizeof(int));
+    if(!valid_rounds(rounds) || ks_len != sizeof(uint32_t) + KEY_HEAD_LEN + tables_len(rounds)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_BAD_INPUT_DATA);
+    }
+    tmp = WBCRYPTO_wbsm4_context_init(encmode, (rounds-32)/4);
+    if(tmp==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    copy_tables(tmp, ptr + KEY_HEAD_LEN, 0);
+    adopt(ctx, tmp);
 
     ret=1;
 cleanup:
     return ret;
 }
-
-
-- 
2.43.0


From e3cd8591a18e0a71ce14bec4c283bdb2932d145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:49 +0000
Subject: [PATCH 11/28] fix: FPE contexts zero-extend short tweaks, accept a
 NULL tweak and do not leak on a bad radix

---
 src/fpe/init.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..1a262d5 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -4,22 +4,34 @@
 
 WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, unsigned int radix,
                                         void *cipher_ctx, block128_f block) {
-    struct fpe_ctx *ctx = malloc(sizeof(struct fpe_ctx));
-    if (!ctx) {
+    // FF3 and its MAC read up to FPE_MIN_TWEAK_SIZE bytes: shorter tweaks are zero-extended
+    const size_t FPE_MIN_TWEAK_SIZE = 16;
+    struct fpe_ctx *ctx = NULL;
+    if (radix < 2 || radix > 36) {
         goto cleanup;
     }
-    if (radix < 2 || radix > 36) {
+    ctx = malloc(sizeof(struct fpe_ctx));
+    if (!ctx) {
         goto cleanup;
     }
+    if (!tweak) {
+        twklen = 0;
+    }
 
     ctx->cipher_ctx = (void *) cipher_ctx;
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    ctx->tweak = (unsigned char *) calloc(1, twklen > FPE_MIN_TWEAK_SIZE ? twklen : FPE_MIN_TWEAK_SIZE);
+    if (!ctx->tweak) {
+        goto cleanup;
+    }
+    if (twklen > 0) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -34,16 +46,17 @@ void WBCRYPTO_fpe_free(WBCRYPTO_fpe_context *ctx) {
 
 WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twklen, unsigned int radix,
                                                 void *cipher_ctx, block128_f block){
-    struct fpe_mac_ctx *ctx = malloc(sizeof(struct fpe_mac_ctx));
+    struct fpe_mac_ctx *ctx = calloc(1, sizeof(struct fpe_mac_ctx));
     if (!ctx) {
         goto cleanup;
     }
-    if (radix < 2 || radix > 36) {
+    ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
         goto cleanup;
     }
-    ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From c502342f32e67b5a179ea0999378d2127af78311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:49 +0000
Subject: [PATCH 12/28] fix: FF1-CMAC chains from the first block when the
 round input is a single block

---
 src/fpe/ff1_cmac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..a72e707 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -120,6 +120,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -291,6 +292,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-- 
2.43.0


From 459ebe5ffd993c3b84b55905d052820a57ffc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:49 +0000
Subject: [PATCH 13/28] fix: FF1 and FF3 refuse texts shorter than two
 characters instead of aborting

---
 src/fpe/ff1.c      | 8 ++++++++
 src/fpe/ff1_cmac.c | 8 ++++++++
 src/fpe/ff3.c      | 8 ++++++++
 src/fpe/ff3_gmac.c | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..19060fa 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -3,6 +3,10 @@
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -155,6 +159,10 @@ cleanup:
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index a72e707..7b95141 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -29,6 +29,10 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -202,6 +206,10 @@ cleanup:
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..7b91c30 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -3,6 +3,10 @@
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -84,6 +88,10 @@ cleanup:
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..50379a3 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -81,6 +81,10 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -178,6 +182,10 @@ cleanup:
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    // a Feistel network needs two non-empty halves
+    if (strlen(input) < 2) {
+        return ret;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
-- 
2.43.0


From 45fedb76a065f3dce0b359ed6b7df31e36098b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:18 +0000
Subject: [PATCH 14/28] fix: application FPE terminates its output, reports
 failures and handles samples shorter or longer than the text

---
 src/fpe_app/cn_utf8.c | 67 +++++++++++++++++--------------------------
 src/fpe_app/idcard.c  | 20 +++++++------
 src/fpe_app/phone.c   | 16 ++++++-----
 3 files changed, 46 insertions(+), 57 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..fc2ba5c 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -9,42 +9,37 @@
 int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *after_cn, fpe_block128_f block) {
     int ret = 0;
     int len = strlen(cn) / 3;
-    int i, tweak_len = 0;
+    int i, j, tweak_len = 0;
+    int sample_len = strlen(sample);
+    char keep[len + 1]; // characters not selected by the sample, or past its end, are kept
 
-    for (i = 0; i < strlen(sample); i++) {
-        if (sample[i] == '*') {
-            ++tweak_len;
+    for (i = 0, j = 0; i < len; i++) {
+        int uc_int = utf8Uint32ToInt(utf8CharToUint32(cn + 3 * i));
+        if ((cn[3 * i] & 0xf0) != 0xe0 || uc_int < 0 || uc_int > 20735) {
+            return ret;
         }
+        keep[i] = sample_len != 0 && (j >= sample_len || sample[j] != '*');
+        j += keep[i] ? 3 : 1;
+        tweak_len += keep[i];
     }
-    if (strcmp(sample, "") != 0) {
-        tweak_len = len - tweak_len;
+    if (strlen(cn) % 3 != 0) {
+        return ret;
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
-    if (strcmp(sample, "") == 0) {
-        for (i = 0; i < len; i++, ch += 3) {
-            uint32_t uc = utf8CharToUint32(ch);
-            int uc_int = utf8Uint32ToInt(uc);
+    for (i = 0; i < len; i++, ch += 3) {
+        uint32_t uc = utf8CharToUint32(ch);
+        int uc_int = utf8Uint32ToInt(uc);
+        if (!keep[i]) {
             utf8IntToCharDuodecimal(uc_int, input_p);
             input_p += 4;
-        }
-    } else {
-        for (i = 0; i < strlen(sample); ch += 3) {
-            uint32_t uc = utf8CharToUint32(ch);
-            int uc_int = utf8Uint32ToInt(uc);
-            if (sample[i] == '*') {
-                utf8IntToCharDuodecimal(uc_int, input_p);
-                input_p += 4;
-                ++i;
-            } else {
-                utf8IntToCharDuodecimal(uc_int, tweak_p);
-                tweak_p += 4;
-                i += 3;
-            }
+        } else {
+            utf8IntToCharDuodecimal(uc_int, tweak_p);
+            tweak_p += 4;
         }
     }
     input[(len - tweak_len) * 4] = '\0';
@@ -62,32 +57,22 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     char *ori_add = cn;
     char *ans_p = ans;
     char *af_p = after_cn;
-    if (strcmp(sample, "") == 0) {
-        for (i = 0; i < len; i++, af_p += 3) {
+    for (i = 0; i < len; i++, af_p += 3, ori_add += 3) {
+        if (!keep[i]) {
             int uc_int = utf8CharDuodecimalToInt(ans_p);
             uint32_t uc = utf8IntToUint32(uc_int);
             utf8Uint32ToChar(uc, af_p);
             ans_p += 4;
-        }
-    } else {
-        for (i = 0; i < strlen(sample); af_p += 3, ori_add += 3) {
-            if (sample[i] == '*') {
-                int uc_int = utf8CharDuodecimalToInt(ans_p);
-                uint32_t uc = utf8IntToUint32(uc_int);
-                utf8Uint32ToChar(uc, af_p);
-                ans_p += 4;
-                ++i;
-            } else {
-                memcpy(af_p, ori_add, 3);
-                i += 3;
-            }
+        } else if (af_p != ori_add) {
+            memcpy(af_p, ori_add, 3);
         }
     }
+    *af_p = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..5294513 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,21 +10,22 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
-    if (strcmp(sample, "") != 0) {
+    int sample_len = strlen(sample); // characters past the end of the sample are kept
+    if (sample_len != 0) {
         for (i = 0; i < len; i++) {
-            if (sample[i] != '*') {
+            if (i >= sample_len || sample[i] != '*') {
                 ++tweak_len;
             }
         }
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (sample_len != 0 && (i >= sample_len || sample[i] != '*')) {
             tweak[k++] = idcard[i];
         } else {
             input[j++] = idcard[i];
@@ -33,7 +34,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     input[len - tweak_len] = '\0';
     tweak[tweak_len] = '\0';
 
-    WBCRYPTO_fpe_context *fpe_ctx;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
@@ -45,18 +46,19 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (sample_len != 0 && (i >= sample_len || sample[i] != '*')) {
             after_idcard[i] = idcard[i];
         } else {
             after_idcard[i] = ans[j++];
         }
     }
     if (idcard[len] == 'X') {
-        after_idcard[len] = 'X';
+        after_idcard[len++] = 'X';
     }
+    after_idcard[len] = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..cc4b3f5 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -7,9 +7,10 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     int len = strlen(phone);
     int i, j, k, tweak_len = 0;
 
-    if (strcmp(sample, "") != 0) {
+    int sample_len = strlen(sample); // characters past the end of the sample are kept
+    if (sample_len != 0) {
         for (i = 0; i < len; i++) {
-            if (sample[i] != '*') {
+            if (i >= sample_len || sample[i] != '*') {
                 ++tweak_len;
             }
         }
@@ -18,16 +19,16 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (sample_len != 0 && (i >= sample_len || sample[i] != '*')) {
             tweak[k++] = phone[i];
         } else {
             input[j++] = phone[i];
         }
     }
 
-    WBCRYPTO_fpe_context *fpe_ctx;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
@@ -39,15 +40,16 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
-        if (strcmp(sample, "") != 0 && sample[i] != '*') {
+        if (sample_len != 0 && (i >= sample_len || sample[i] != '*')) {
             after_phone[i] = phone[i];
         } else {
             after_phone[i] = ans[j++];
         }
     }
+    after_phone[len] = '\0';
 
     ret = 1;
 cleanup:
-- 
2.43.0


From a97beca615ff27c69bcf107898ed7dd195d1d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:36 +0000
Subject: [PATCH 15/28] fix: WBCRYPTO_sm3 returns its documented result

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From 92593e10d7c91099b08d2c0957ebd438382b8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:36 +0000
Subject: [PATCH 16/28] fix: MySQL 8 UDF handles NULL, unterminated and long
 arguments and reports errors through the error flag

---
 udf/mysql8.cpp | 76 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 70ed153..ff3a6db 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -40,7 +41,7 @@ bool fpe_init(UDF_INIT *initid, UDF_ARGS *args, char *message) {
     }
 
     initid->max_length = args->lengths[0];
-    initid->maybe_null = args->maybe_null;
+    initid->maybe_null = true;
     initid->ptr = (char *) malloc(initid->max_length + 1);
     if (initid->ptr == NULL) {
         strcpy(message, "could't allocate memory");
@@ -55,21 +56,47 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
-    char *sample;
-    int plain_len = args->lengths[0];
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+
+    // the server's arguments are not NUL-terminated
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = &plain_str[0];
+    const char *mode = mode_str.c_str();
+    char *sample = NULL;
+    size_t plain_len = plain_str.size();
+    int ret;
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = &sample_str[0];
         if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
-            char msg[200];
-            sprintf(msg, "sample should be as long as plain, plain: %s, sample: %s", plain, sample);
-            strcpy(error, msg);
+            *error = 1;
             return NULL;
         }
     }
 
+    if (strlen(plain) != plain_len) {
+        *error = 1;
+        return NULL;
+    }
+
+    // a row can be longer than what was announced, and longer than the server's result buffer
+    if (plain_len > initid->max_length) {
+        char *ptr = (char *) realloc(initid->ptr, plain_len + 1);
+        if (ptr == NULL) {
+            *error = 1;
+            return NULL;
+        }
+        initid->ptr = ptr;
+        initid->max_length = plain_len;
+    }
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
@@ -78,40 +105,41 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1;
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ret = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ret = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1;
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ret = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ret = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ret = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ret = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1;
         return NULL;
     }
 
-    *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
+    if (!ret) {
+        *error = 1;
+        return NULL;
+    }
 
-    // char ret[1024];
-    // sprintf(ret, "%s", result);
+    *length = plain_len;
 
-    return result;
-}
\ No newline at end of file
+    return initid->ptr;
+}
-- 
2.43.0


From 005229c13186d0917ce28319d6352ab86e9de3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:01 +0000
Subject: [PATCH 17/28] fix: FF1 with an empty tweak does not abort when the
 round input needs no padding

---
 src/fpe/ff1.c      | 4 ++--
 src/fpe/ff1_cmac.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 19060fa..cc84f8a 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -67,7 +67,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
@@ -222,7 +222,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 7b95141..e1f18f1 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -93,7 +93,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
@@ -269,7 +269,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-- 
2.43.0


From d3dfebd5a3cc076b10d6b86c448f3bfaec85cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:30 +0000
Subject: [PATCH 18/28] fix: padding helpers compute lengths in size_t, so CBC
 refuses inputs of 4 GiB and more that exceed the buffer

---
 src/modes/cbc128.c  | 2 +-
 src/utils/padding.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index 618fd77..a3bb48e 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -7,7 +7,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     int ret=0;
     size_t n, len = WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen);
     unsigned char *padbuf = NULL, *afin;
-    if(max_olen<len){
+    if(max_olen<len || len<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }
     padbuf = (unsigned char *)malloc(len+1);
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 46cd617..61711cd 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -42,7 +42,7 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    size_t i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
@@ -58,7 +58,7 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = srclen == 0 ? 0 : (int)src[srclen-1], afpad_len;
+    size_t pad_num = srclen == 0 ? 0 : src[srclen-1], afpad_len;
     if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
@@ -68,13 +68,13 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = srclen == 0 ? 0 : src[srclen-1], afpad_len;
+    size_t pad_num = srclen == 0 ? 0 : src[srclen-1], afpad_len;
     if(pad_num > 16 || pad_num > srclen){
         pad_num = 0;
     }
-- 
2.43.0


From ed093fd0ca595186f79d793ab53a5780cf910905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 19/28] fix: MySQL 5 UDF handles NULL, unterminated and long
 arguments and reports errors through the error flag

---
 udf/mysql5.cpp | 76 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index ce4bbf7..5449334 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -40,7 +41,7 @@ my_bool fpe_init(UDF_INIT *initid, UDF_ARGS *args, char *message) {
     }
 
     initid->max_length = args->lengths[0];
-    initid->maybe_null = (my_bool) (*args->maybe_null);
+    initid->maybe_null = true;
     initid->ptr = (char *) malloc(initid->max_length + 1);
     if (initid->ptr == NULL) {
         strcpy(message, "could't allocate memory");
@@ -55,15 +56,47 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
-    char *sample;
-    int plain_len = args->lengths[0];
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+
+    // the server's arguments are not NUL-terminated
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = &plain_str[0];
+    const char *mode = mode_str.c_str();
+    char *sample = NULL;
+    size_t plain_len = plain_str.size();
+    int ret;
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = &sample_str[0];
+        if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
+            *error = 1;
+            return NULL;
+        }
+    }
+
+    if (strlen(plain) != plain_len) {
+        *error = 1;
+        return NULL;
     }
 
+    // a row can be longer than what was announced, and longer than the server's result buffer
+    if (plain_len > initid->max_length) {
+        char *ptr = (char *) realloc(initid->ptr, plain_len + 1);
+        if (ptr == NULL) {
+            *error = 1;
+            return NULL;
+        }
+        initid->ptr = ptr;
+        initid->max_length = plain_len;
+    }
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
@@ -72,40 +105,41 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1;
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ret = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ret = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1;
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ret = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ret = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ret = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ret = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1;
         return NULL;
     }
 
-    *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
+    if (!ret) {
+        *error = 1;
+        return NULL;
+    }
 
-    // char ret[1024];
-    // sprintf(ret, "%s", result);
+    *length = plain_len;
 
-    return result;
-}
\ No newline at end of file
+    return initid->ptr;
+}
-- 
2.43.0


From 2304aa8a30d654e1ade145ce5419fa4de3790c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 20/28] fix: GCM encodes IV lengths of 2^29 bytes and more in
 64 bits

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index f9f832e..a7d058f 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -118,6 +118,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset( work_buf, 0x00, 16 );               // clear the working buffer
+        PUT_UINT32_BE( ( (uint64_t) len * 8 ) >> 32, work_buf, 8 );
         PUT_UINT32_BE( len * 8, work_buf, 12 );  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index f984116..8e112f6 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -117,6 +117,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE(((uint64_t) len * 8) >> 32, work_buf, 8);
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 7cd6749..1fd6c1a 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -126,6 +126,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE(((uint64_t) len * 8) >> 32, work_buf, 8);
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
-- 
2.43.0


From 460c74b1a2ce5435247d01a3cfddca2b43f93a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 21/28] fix: releasing an AES, SM4, white-box AES or GCM
 context returns its memory and erases its keys

---
 src/aes/aes.c                     | 7 ++++++-
 src/modes/gcm128.c                | 6 +++++-
 src/modes/gcmfile.c               | 5 ++++-
 src/sm4/sm4.c                     | 7 ++++++-
 src/wbaes/wbaes.c                 | 2 +-
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 4 ++--
 src/wbaes/wbaes_wbgcm_mask_mode.c | 4 ++--
 7 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 77a2ada..4202eb1 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/aes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_aes_context *WBCRYPTO_aes_context_init(){
     struct aes_context *ctx=malloc(sizeof(struct aes_context));
@@ -13,7 +14,11 @@ cleanup:
 }
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
-    memset(ctx,0,sizeof(struct aes_context));
+    if(ctx==NULL){
+        return;
+    }
+    OPENSSL_cleanse(ctx,sizeof(struct aes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index a7d058f..512086a 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 void gcm_mult( WBCRYPTO_gcm_context *ctx,
                       const unsigned char x[16],
@@ -292,5 +293,8 @@ cleanup:
 }
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
-    memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    if( ctx != NULL ){
+        OPENSSL_cleanse( ctx, sizeof(WBCRYPTO_gcm_context) );
+        free( ctx );
+    }
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 18300c9..ef21cb6 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -204,6 +204,9 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    if (ctx != NULL) {
+        WBCRYPTO_gcm_free(ctx->gcm);
+        free(ctx);
+    }
 }
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 7cd29b7..f787fb0 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -10,6 +10,7 @@
  */
 
 #include <wbcrypto/sm4.h>
+#include <openssl/crypto.h>
 
 static const uint8_t SM4_S[256] = {
         0xD6, 0x90, 0xE9, 0xFE, 0xCC, 0xE1, 0x3D, 0xB7, 0x16, 0xB6, 0x14, 0xC2,
@@ -140,7 +141,11 @@ cleanup:
 }
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
-    memset(ctx,0,sizeof(struct sm4_context));
+    if(ctx==NULL){
+        return;
+    }
+    OPENSSL_cleanse(ctx,sizeof(struct sm4_context));
+    free(ctx);
 }
 
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 8b034fc..7459878 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -14,7 +14,7 @@ cleanup:
 }
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
-    memset(ctx,0,sizeof(struct wbaes_context));
+    free(ctx);
 }
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 8e112f6..1f8d9a7 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -1,4 +1,5 @@
 #include "wbcrypto/wbaes_wbgcm_ee.h"
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -287,9 +288,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 }
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
     if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
-        ctx = NULL;
     }
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 1fd6c1a..4ffcdb3 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/wbaes_wbgcm_mask.h>
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_mask_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -317,9 +318,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
     if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
-        ctx = NULL;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 0e9036bc8e27ccd56b49572c42935dcf1d18e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 22/28] fix: white-box SM4 contexts return their tables and
 table generation frees its key schedule

---
 src/se_wbsm4/se_wbsm4.c |  3 ++-
 src/wbsm4/wbsm4.c       | 30 +++++++++++++++++++++++++++++-
 src/wbsm4/wbsm4_exkey.c | 32 ++------------------------------
 src/wbsm4/wbsm4_gen.c   |  1 +
 src/wbsm4/wbsm4_local.h |  2 ++
 5 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 382a84c..0dfe592 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -14,7 +14,7 @@ cleanup:
 }
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
-    memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    free(ctx);
 }
 
 int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *key, size_t keylen) {
@@ -87,6 +87,7 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
+    WBCRYPTO_sm4_context_free(sm4_key);
     return 1;
 }
 
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 56d390a..af9ceda 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -44,8 +44,36 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
     return ctx;
 }
 
+void wbsm4_free_tables(WBCRYPTO_wbsm4_context *ctx){
+    int i,j,k;
+    for (i = 0; i < ctx->rounds; i++) {
+        for (j = 0; j < 3; j++) {
+            for (k = 0; k < 4; k++) {
+                free(ctx->MM[i][j][k]);
+            }
+            free(ctx->MM[i][j]);
+        }
+        for (j = 0; j < 4; j++) {
+            free(ctx->CC[i][j]);
+            free(ctx->DD[i][j]);
+            free(ctx->Table[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+}
+
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
-    memset(ctx,0,sizeof(struct wbsm4_context));
+    if(ctx!=NULL){
+        wbsm4_free_tables(ctx);
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_wbsm4_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_wbsm4_context *ctx){
diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 49f3ae0..af3d584 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -11,41 +11,13 @@ static long tables_len(int rounds){
     return ((long)rounds*(3*4 + 3*4) + 2*4*4) * 256 * (long)sizeof(uint32_t);
 }
 
-static void free_tables(WBCRYPTO_wbsm4_context *ctx){
-    int i,j,k;
-    for (i = 0; i < ctx->rounds; i++) {
-        for (j = 0; j < 3; j++) {
-            for (k = 0; k < 4; k++) {
-                free(ctx->MM[i][j][k]);
-            }
-            free(ctx->MM[i][j]);
-        }
-        for (j = 0; j < 4; j++) {
-            free(ctx->CC[i][j]);
-            free(ctx->DD[i][j]);
-            free(ctx->Table[i][j]);
-        }
-        free(ctx->MM[i]);
-        free(ctx->CC[i]);
-        free(ctx->DD[i]);
-        free(ctx->Table[i]);
-    }
-    free(ctx->MM);
-    free(ctx->CC);
-    free(ctx->DD);
-    free(ctx->Table);
-}
-
 static void discard(WBCRYPTO_wbsm4_context *ctx){
-    if(ctx != NULL){
-        free_tables(ctx);
-        free(ctx);
-    }
+    WBCRYPTO_wbsm4_context_free(ctx);
 }
 
 // the importing context takes over the tables of src, whatever size its own had
 static void adopt(WBCRYPTO_wbsm4_context *ctx, WBCRYPTO_wbsm4_context *src){
-    free_tables(ctx);
+    wbsm4_free_tables(ctx);
     *ctx = *src;
     free(src);
 }
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index df198f4..8b8f354 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -274,6 +274,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     ret=1;
 cleanup:
     free(dummy_array);
+    WBCRYPTO_sm4_context_free(sm4_key);
     return ret;
 }
 
diff --git a/src/wbsm4/wbsm4_local.h b/src/wbsm4/wbsm4_local.h
index 2e7c935..d465f9c 100644
--- a/src/wbsm4/wbsm4_local.h
+++ b/src/wbsm4/wbsm4_local.h
@@ -17,4 +17,6 @@
 
 extern const uint8_t SBOX[256];
 
+void wbsm4_free_tables(WBCRYPTO_wbsm4_context *ctx);
+
 #endif //WBCRYPTO_WBSM4_LOCAL_H
-- 
2.43.0


From 9e8d30d4ac1d8a72ae8450f4ac1c8f0ee838b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 23/28] fix: the MySQL functions free the cipher context of
 each row

---
 udf/mysql5.cpp | 5 +++++
 udf/mysql8.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 5449334..bae1300 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -102,6 +102,11 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     WBCRYPTO_fpe_app_context app_ctx;
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    // released on every way out
+    struct cipher_guard {
+        WBCRYPTO_sm4_context *ctx;
+        ~cipher_guard() { WBCRYPTO_sm4_context_free(ctx); }
+    } guard = { (WBCRYPTO_sm4_context *) app_ctx.cipher_ctx };
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index ff3a6db..a620e30 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -102,6 +102,11 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     WBCRYPTO_fpe_app_context app_ctx;
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    // released on every way out
+    struct cipher_guard {
+        WBCRYPTO_sm4_context *ctx;
+        ~cipher_guard() { WBCRYPTO_sm4_context_free(ctx); }
+    } guard = { (WBCRYPTO_sm4_context *) app_ctx.cipher_ctx };
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-- 
2.43.0


From 1f638771fcbe425ce179165649ac0260f6f7c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:33 +0000
Subject: [PATCH 24/28] fix: GCM initialisation that fails frees its context,
 and the file variant reports it

---
 src/modes/gcm128.c  | 1 +
 src/modes/gcmfile.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 512086a..a2a8edf 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -92,6 +92,7 @@ WBCRYPTO_gcm_context *WBCRYPTO_gcm_init(void *key, block128_f block)
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index ef21cb6..f2acb3d 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -7,8 +7,11 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     }
     memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL)
+        goto cleanup;
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From 90537d8a5bd914197f5966f6a03cc83cf06f567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 25/28] fix: FF1 and FF3 report a failing block function and
 running out of memory

---
 src/fpe/ff1.c         | 62 ++++++++++++++++-----------
 src/fpe/ff1_cmac.c    | 78 +++++++++++++++++++++-------------
 src/fpe/ff3.c         | 44 ++++++++++++--------
 src/fpe/ff3_gmac.c    | 48 ++++++++++++---------
 src/fpe/fpe_locl.c    | 97 +++++++++++++++++++++++++++++--------------
 src/fpe/fpe_locl.h    | 10 ++---
 src/fpe_app/cn_utf8.c |  2 +
 src/fpe_app/idcard.c  |  2 +
 src/fpe_app/phone.c   |  2 +
 9 files changed, 216 insertions(+), 129 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index cc84f8a..b732a42 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -14,6 +14,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -28,7 +29,9 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->radix));
     const int b = ceil2(temp, 3);
@@ -37,7 +40,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes)
+        goto cleanup;
 
     // initialize P
     P[0] = 0x1;
@@ -72,14 +78,16 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S)
+        goto cleanup;
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
 
         // i
         Q[ctx->tweaklen + pad] = i & 0xff;
-        str2num(bnum, B, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->radix, inlen - m, bn_ctx));
         int BytesLen = BN_bn2bin(bnum, Bytes);
         memset(Q + Qlen - b, 0x00, b);
 
@@ -88,14 +96,14 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -118,27 +126,26 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(A, radix, m) + y) % qpow(radix, m);
-        str2num(anum, A, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->radix, m, bn_ctx));
         // anum = (anum + y) mod qpow_uv
-        if (m == u) BN_mod_add(c, anum, y, qpow_u, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, B, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, B, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
@@ -170,6 +177,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -184,7 +192,9 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->radix));
     const int b = ceil2(temp, 3);
@@ -193,7 +203,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes)
+        goto cleanup;
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -227,14 +240,16 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S)
+        goto cleanup;
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
 
         // i
         Q[ctx->tweaklen + pad] = i & 0xff;
-        str2num(anum, A, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->radix, inlen - m, bn_ctx));
         memset(Q + Qlen - b, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         int qtmp = Qlen - BytesLen;
@@ -243,14 +258,14 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -272,25 +287,24 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(B, radix, m) - y) % qpow(radix, m);
-        str2num(bnum, B, ctx->radix, m, bn_ctx);
-        if (m == u) BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, A, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, A, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index e1f18f1..7c4f446 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -12,9 +12,10 @@ void left_shift_buffer(uint8_t *input, uint8_t *output, uint8_t length) {
     }
 }
 
-void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+int generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+    int ret = 0;
     char msg[16] = {0x00};
-    (*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx);
+    WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx));
 
     left_shift_buffer(K2, K1, 16);
     if (K2[0] & 0x80) {
@@ -25,6 +26,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
     if (K1[0] & 0x80) {
         K2[15] = K2[15] ^ 0x87;
     }
+    ret = 1;
+cleanup:
+    return ret;
 }
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
@@ -40,6 +44,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -54,7 +59,9 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
@@ -63,7 +70,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes)
+        goto cleanup;
 
     // initialize P
     P[0] = 0x1;
@@ -97,20 +107,22 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S)
+        goto cleanup;
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
 
         // i
         Q[ctx->fpe_ctx->tweaklen + pad] = i & 0xff;
-        str2num(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         int BytesLen = BN_bn2bin(bnum, Bytes);
         memset(Q + Qlen - b, 0x00, b);
 
@@ -119,7 +131,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -128,7 +140,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -140,7 +152,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -164,27 +176,26 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(A, radix, m) + y) % qpow(radix, m);
-        str2num(anum, A, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->fpe_ctx->radix, m, bn_ctx));
         // anum = (anum + y) mod qpow_uv
-        if (m == u) BN_mod_add(c, anum, y, qpow_u, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, B, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, B, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, mac, 16);
@@ -217,6 +228,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -231,7 +243,9 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
@@ -240,7 +254,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || !Bytes)
+        goto cleanup;
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -273,20 +290,22 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S)
+        goto cleanup;
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
 
         // i
         Q[ctx->fpe_ctx->tweaklen + pad] = i & 0xff;
-        str2num(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         memset(Q + Qlen - b, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         int qtmp = Qlen - BytesLen;
@@ -295,7 +314,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -304,7 +323,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -316,7 +335,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -339,25 +358,24 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(B, radix, m) - y) % qpow(radix, m);
-        str2num(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx);
-        if (m == u) BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, A, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, A, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, mac, 16);
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 7b91c30..bc16037 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -14,6 +14,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
@@ -23,12 +24,16 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes)
+        goto cleanup;
 
     for (int i = 0; i < FF3_ROUNDS; ++i) {
         // i
@@ -42,7 +47,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         }
         P[3] ^= i & 0xff;
 
-        str2num_rev(bnum, B, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(bnum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -52,23 +57,22 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(anum, A, ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_add(c, anum, y, qpow_v, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, B, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, B, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
@@ -99,6 +103,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
@@ -108,12 +113,16 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes)
+        goto cleanup;
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -128,7 +137,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii
 
-        str2num_rev(anum, A, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -139,23 +148,22 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(bnum, B, ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, A, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, A, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 50379a3..2937015 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -92,6 +92,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
@@ -101,16 +102,20 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes)
+        goto cleanup;
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16], M[16];
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
@@ -128,7 +133,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         P[3] ^= i & 0xff;
 
         // ii
-        str2num_rev(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(bnum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -138,7 +143,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
@@ -149,19 +154,18 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         }
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(anum, A, ctx->fpe_ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_add(c, anum, y, qpow_v, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->fpe_ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, B, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, B, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, M, 16);
@@ -193,6 +197,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
@@ -202,19 +207,23 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16]={0}, M[16]={0};
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (!Bytes)
+        goto cleanup;
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -228,7 +237,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         P[3] ^= i & 0xff;
 
         // ii
-        str2num_rev(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -239,7 +248,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
@@ -250,19 +259,18 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         }
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, A, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, A, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, M, 16);
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index 74b8857..9d0c8d3 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -1,25 +1,34 @@
 #include "fpe_locl.h"
+#include <wbcrypto/error.h>
 
 // quick power: result = x ^ e
-void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx) {
+int pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx) {
+    int ret = 0;
     BN_CTX_start(ctx);
     BIGNUM *base = BN_CTX_get(ctx),
             *e = BN_CTX_get(ctx);
 
-    BN_set_word(base, x);
+    if (e == NULL)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(BN_set_word(base, x));
     if (u > v) {
-        BN_set_word(e, v);
-        BN_exp(pow_v, base, e, ctx);
-        BN_mul(pow_u, pow_v, base, ctx);
+        WBCRYPTO_MPI_CHK(BN_set_word(e, v));
+        WBCRYPTO_MPI_CHK(BN_exp(pow_v, base, e, ctx));
+        WBCRYPTO_MPI_CHK(BN_mul(pow_u, pow_v, base, ctx));
     } else {
-        BN_set_word(e, u);
-        BN_exp(pow_u, base, e, ctx);
-        if (u == v) BN_copy(pow_v, pow_u);
-        else BN_mul(pow_v, pow_u, base, ctx);
+        WBCRYPTO_MPI_CHK(BN_set_word(e, u));
+        WBCRYPTO_MPI_CHK(BN_exp(pow_u, base, e, ctx));
+        if (u == v) {
+            WBCRYPTO_MPI_CHK(BN_copy(pow_v, pow_u));
+        } else {
+            WBCRYPTO_MPI_CHK(BN_mul(pow_v, pow_u, base, ctx));
+        }
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(ctx);
-    return;
+    return ret;
 
     /*
     // old veresion, classical quick power
@@ -59,45 +68,57 @@ void inverse_map_chars(unsigned result[], unsigned char str[], int len) {
 }
 
 // convert numeral string to number
-void str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx) {
+int str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx) {
+    int ret = 0;
     BN_CTX_start(ctx);
     BIGNUM *r = BN_CTX_get(ctx),
             *x = BN_CTX_get(ctx);
 
-    BN_set_word(Y, 0);
-    BN_set_word(r, radix);
+    if (x == NULL)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(BN_set_word(Y, 0));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     for (int i = 0; i < len; ++i) {
         // Y = Y * radix + X[i]
-        BN_set_word(x, X[i]);
-        BN_mul(Y, Y, r, ctx);
-        BN_add(Y, Y, x);
+        WBCRYPTO_MPI_CHK(BN_set_word(x, X[i]));
+        WBCRYPTO_MPI_CHK(BN_mul(Y, Y, r, ctx));
+        WBCRYPTO_MPI_CHK(BN_add(Y, Y, x));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(ctx);
+    return ret;
 }
 
 // convert number to numeral string
-void num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx) {
+int num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx) {
+    int ret = 0;
     BN_CTX_start(ctx);
     BIGNUM *dv = BN_CTX_get(ctx),
             *rem = BN_CTX_get(ctx),
             *r = BN_CTX_get(ctx),
             *XX = BN_CTX_get(ctx);
 
-    BN_copy(XX, X);
-    BN_set_word(r, radix);
+    if (XX == NULL)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(BN_copy(XX, X));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     memset(Y, 0, len << 2);
 
     for (int i = len - 1; i >= 0; --i) {
         // XX / r = dv ... rem
-        BN_div(dv, rem, XX, r, ctx);
+        WBCRYPTO_MPI_CHK(BN_div(dv, rem, XX, r, ctx));
         // Y[i] = XX % r
         Y[i] = BN_get_word(rem);
         // XX = XX / r
-        BN_copy(XX, dv);
+        WBCRYPTO_MPI_CHK(BN_copy(XX, dv));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(ctx);
+    return ret;
 }
 
 void rev_bytes(unsigned char X[], int len) {
@@ -111,43 +132,55 @@ void rev_bytes(unsigned char X[], int len) {
 }
 
 // convert numeral string in reverse order to number
-void str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx) {
+int str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx) {
+    int ret = 0;
     BN_CTX_start(bn_ctx);
     BIGNUM *r = BN_CTX_get(bn_ctx),
             *x = BN_CTX_get(bn_ctx);
 
-    BN_set_word(Y, 0);
-    BN_set_word(r, radix);
+    if (x == NULL)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(BN_set_word(Y, 0));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     for (int i = len - 1; i >= 0; --i) {
         // Y = Y * radix + X[i]
-        BN_set_word(x, X[i]);
-        BN_mul(Y, Y, r, bn_ctx);
-        BN_add(Y, Y, x);
+        WBCRYPTO_MPI_CHK(BN_set_word(x, X[i]));
+        WBCRYPTO_MPI_CHK(BN_mul(Y, Y, r, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_add(Y, Y, x));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(bn_ctx);
+    return ret;
 }
 
 // convert number to numeral string in reverse order
-void num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx) {
+int num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx) {
+    int ret = 0;
     BN_CTX_start(bn_ctx);
     BIGNUM *dv = BN_CTX_get(bn_ctx),
             *rem = BN_CTX_get(bn_ctx),
             *r = BN_CTX_get(bn_ctx),
             *XX = BN_CTX_get(bn_ctx);
 
-    BN_copy(XX, X);
-    BN_set_word(r, radix);
+    if (XX == NULL)
+        goto cleanup;
+    WBCRYPTO_MPI_CHK(BN_copy(XX, X));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     memset(Y, 0, len << 2);
 
     for (int i = 0; i < len; ++i) {
         // XX / r = dv ... rem
-        BN_div(dv, rem, XX, r, bn_ctx);
+        WBCRYPTO_MPI_CHK(BN_div(dv, rem, XX, r, bn_ctx));
         // Y[i] = XX % r
         Y[i] = BN_get_word(rem);
         // XX = XX / r
-        BN_copy(XX, dv);
+        WBCRYPTO_MPI_CHK(BN_copy(XX, dv));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(bn_ctx);
+    return ret;
 }
\ No newline at end of file
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index 050dd1b..1af3175 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -16,25 +16,25 @@
 # define ceil2(x, bit) ( ((x) >> (bit)) + ( ((x) & ((1 << (bit)) - 1)) > 0 ) )
 # define floor2(x, bit) ( (x) >> (bit) )
 
-void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
+int pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
 void map_chars(const unsigned char str[], unsigned int result[]);
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
 
 // convert numeral string to number
-void str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx);
+int str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx);
 
 // convert number to numeral string
-void num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx);
+int num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx);
 
 void rev_bytes(unsigned char X[], int len);
 
 // convert numeral string in reverse order to number
-void str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx);
+int str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx);
 
 // convert number to numeral string in reverse order
-void num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx);
+int num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx);
 
 //int log2(int x);
 
diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index fc2ba5c..e160256 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -57,6 +57,8 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
+    if (fpe_ctx == NULL)
+        goto cleanup;
     WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     char *ori_add = cn;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index 5294513..b66a1fd 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -46,6 +46,8 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
+    if (fpe_ctx == NULL)
+        goto cleanup;
     WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index cc4b3f5..a418d29 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -40,6 +40,8 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
+    if (fpe_ctx == NULL)
+        goto cleanup;
     WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
-- 
2.43.0


From fd0580a689bb881fa288b71d41b9de5104b9eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 26/28] fix: parallel GCM reports a failing block function and
 running out of memory

---
 src/modes/gcm_parallel.c | 64 ++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index c4fba80..8cebf67 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -5,24 +5,32 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
     int ret=0;            // our error return if the AES encrypt fails
-    size_t len;
+    int failed=0;
+    size_t i, j; // local loop iterator
+    size_t len, len_s=0;
+    unsigned char **y_arr=NULL;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
         len=inlen;
     }
-    size_t i, j; // local loop iterator
     block128_f block = ctx->block;
     void *key = ctx->key;
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len + 15) / 16;
+    len_s = (len + 15) / 16;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    y_arr = (unsigned char **)calloc(len_s, sizeof(unsigned char *));
+    if(y_arr==NULL && len_s!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if(y_arr[i]==NULL){
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel",WBCRYPTO_ERR_ALLOC_FAILED);
+        }
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -43,13 +51,21 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
+    if(failed){
+        goto cleanup;
+    }
     //unable to parallel
     for (i = 0; i < len_s; i++)
     {
@@ -64,11 +80,11 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
         gcm_mult(ctx, ctx->buf, ctx->buf);
     }
-    for (i = 0; i < len_s; i++)
-        free(y_arr[i]);
-    free(y_arr);
     ret=1;
 cleanup:
+    for (i = 0; y_arr!=NULL && i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
     return ret;
 }
 
@@ -76,24 +92,32 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
     int ret=0;            // our error return if the AES encrypt fails
-    size_t len;
+    int failed=0;
+    size_t i, j; // local loop iterator
+    size_t len, len_s=0;
+    unsigned char **y_arr=NULL;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
         len=inlen;
     }
-    size_t i, j; // local loop iterator
     block128_f block = ctx->block;
     void *key = ctx->key;
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len + 15) / 16;
+    len_s = (len + 15) / 16;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    y_arr = (unsigned char **)calloc(len_s, sizeof(unsigned char *));
+    if(y_arr==NULL && len_s!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if(y_arr[i]==NULL){
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_parallel",WBCRYPTO_ERR_ALLOC_FAILED);
+        }
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -128,17 +152,25 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
-    for (i = 0; i < len_s; i++)
-        free(y_arr[i]);
-    free(y_arr);
+    if(failed){
+        goto cleanup;
+    }
     ret=1;
 cleanup:
+    for (i = 0; y_arr!=NULL && i < len_s; i++)
+        free(y_arr[i]);
+    free(y_arr);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 6a8b586f267eeefd8d572b9558a34a1a17679559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 27/28] fix: contexts and tables report running out of memory

---
 src/se_wbsm4/se_wbsm4.c           |  8 ++---
 src/sm4/sm4.c                     |  3 ++
 src/utils/wrandom.c               |  2 ++
 src/wbaes/wbaes_wbgcm_mask_init.c | 23 ++++++++++--
 src/wbsm4/wbsm4.c                 | 60 ++++++++++++++++++++-----------
 src/wbsm4/wbsm4_gen.c             | 24 ++++++++++---
 6 files changed, 89 insertions(+), 31 deletions(-)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 0dfe592..862a0d6 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -26,10 +26,10 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
     Aff32 AA[32], BB[32];
 
     WBCRYPTO_sm4_context *sm4_key = WBCRYPTO_sm4_context_init();
-    if (ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
-    } else {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+    if (sm4_key == NULL || !aux_sm4_init_key(sm4_key, key, keylen,
+                                             ctx->encmode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE)) {
+        WBCRYPTO_sm4_context_free(sm4_key);
+        return 0;
     }
     InitRandom(((unsigned int) time(NULL)));
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index f787fb0..cd7473d 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -151,6 +151,9 @@ void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
     int ret=0;
     uint8_t *padkey = (uint8_t *)malloc(16*sizeof(uint8_t));
+    if(padkey==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_sm4_init_key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
 
     WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);   //Operation after key-padding
 
diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index d543e94..5148594 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -58,6 +58,8 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     int t, roundCnt, ret;
     unsigned int *randNumbers;
     randNumbers = (unsigned int *)malloc((len + 10) * sizeof(unsigned int));
+    if (randNumbers == NULL)
+        return -1;
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index d62fa7c..98da8b3 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -15,16 +15,35 @@ WBCRYPTO_wbaes_wbgcm_mask_context* WBCRYPTO_wbaes_wbgcm_mask_init_table(){
     if(ctx==NULL){
         return NULL;
     }
-    ctx->GBOX_TypeIII=(uint8_t ***)malloc((16)*sizeof(uint8_t**));
+    ctx->GBOX_TypeIII=(uint8_t ***)calloc(16, sizeof(uint8_t**));
+    if(ctx->GBOX_TypeIII==NULL){
+        goto cleanup;
+    }
     for(i=0; i< 16; i++) {
-        ctx->GBOX_TypeIII[i]=(uint8_t **)malloc((256)*sizeof(uint8_t*));
+        ctx->GBOX_TypeIII[i]=(uint8_t **)calloc(256, sizeof(uint8_t*));
+        if(ctx->GBOX_TypeIII[i]==NULL){
+            goto cleanup;
+        }
     }
     for(i=0; i< 16; i++) {
         for (j = 0; j < 256; j++) {
             ctx->GBOX_TypeIII[i][j] = (uint8_t *) malloc((256) * sizeof(uint8_t));
+            if(ctx->GBOX_TypeIII[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     return ctx;
+cleanup:
+    for(i=0; ctx->GBOX_TypeIII && i< 16; i++) {
+        for (j = 0; ctx->GBOX_TypeIII[i] && j < 256; j++) {
+            free(ctx->GBOX_TypeIII[i][j]);
+        }
+        free(ctx->GBOX_TypeIII[i]);
+    }
+    free(ctx->GBOX_TypeIII);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *ctx, const uint8_t *key, size_t keylen)
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index af9ceda..38767ac 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -7,27 +7,41 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
         return NULL;
     }
     int rounds = 32 + 4*dummyrounds;
-    ctx->MM = (uint32_t ****)malloc(rounds*sizeof(uint32_t***));
-    ctx->CC = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->DD = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->Table = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
+    ctx->rounds=rounds;
+    ctx->encmode=encmode;
+    ctx->MM = (uint32_t ****)calloc(rounds, sizeof(uint32_t***));
+    ctx->CC = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    ctx->DD = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    ctx->Table = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    if(ctx->MM==NULL || ctx->CC==NULL || ctx->DD==NULL || ctx->Table==NULL){
+        goto cleanup;
+    }
 
     for(i=0;i<rounds;i++){
-        ctx->MM[i]=(uint32_t ***)malloc((3)*sizeof(uint32_t**));
-        ctx->CC[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->DD[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->Table[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+        ctx->MM[i]=(uint32_t ***)calloc(3, sizeof(uint32_t**));
+        ctx->CC[i]=(uint32_t **)calloc(4, sizeof(uint32_t*));
+        ctx->DD[i]=(uint32_t **)calloc(4, sizeof(uint32_t*));
+        ctx->Table[i]=(uint32_t **)calloc(4, sizeof(uint32_t*));
+        if(ctx->MM[i]==NULL || ctx->CC[i]==NULL || ctx->DD[i]==NULL || ctx->Table[i]==NULL){
+            goto cleanup;
+        }
     }
 
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
-            ctx->MM[i][j]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+            ctx->MM[i][j]=(uint32_t **)calloc(4, sizeof(uint32_t*));
+            if(ctx->MM[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
             for (k = 0; k < 4; k++) {
                 ctx->MM[i][j][k] = (uint32_t *) malloc((256) * sizeof(uint32_t));
+                if(ctx->MM[i][j][k]==NULL){
+                    goto cleanup;
+                }
             }
         }
     }
@@ -37,31 +51,37 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
             ctx->CC[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
             ctx->DD[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
             ctx->Table[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
+            if(ctx->CC[i][j]==NULL || ctx->DD[i][j]==NULL || ctx->Table[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
-    ctx->rounds=rounds;
-    ctx->encmode=encmode;
     return ctx;
+cleanup:
+    wbsm4_free_tables(ctx);
+    free(ctx);
+    return NULL;
 }
 
+// also of a context whose tables are only partly there
 void wbsm4_free_tables(WBCRYPTO_wbsm4_context *ctx){
     int i,j,k;
     for (i = 0; i < ctx->rounds; i++) {
-        for (j = 0; j < 3; j++) {
-            for (k = 0; k < 4; k++) {
+        for (j = 0; ctx->MM && ctx->MM[i] && j < 3; j++) {
+            for (k = 0; ctx->MM[i][j] && k < 4; k++) {
                 free(ctx->MM[i][j][k]);
             }
             free(ctx->MM[i][j]);
         }
         for (j = 0; j < 4; j++) {
-            free(ctx->CC[i][j]);
-            free(ctx->DD[i][j]);
-            free(ctx->Table[i][j]);
+            if (ctx->CC && ctx->CC[i]) free(ctx->CC[i][j]);
+            if (ctx->DD && ctx->DD[i]) free(ctx->DD[i][j]);
+            if (ctx->Table && ctx->Table[i]) free(ctx->Table[i][j]);
         }
-        free(ctx->MM[i]);
-        free(ctx->CC[i]);
-        free(ctx->DD[i]);
-        free(ctx->Table[i]);
+        if (ctx->MM) free(ctx->MM[i]);
+        if (ctx->CC) free(ctx->CC[i]);
+        if (ctx->DD) free(ctx->DD[i]);
+        if (ctx->Table) free(ctx->Table[i]);
     }
     free(ctx->MM);
     free(ctx->CC);
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index 8b8f354..fbec6d2 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -82,11 +82,17 @@ void identityAff32(Aff32 *aff){
 uint8_t *wbsm4_gen_dummyround_array(int rounds, int dummyrounds) {
     int len_origin = rounds + dummyrounds;
     uint8_t *da = (uint8_t*) malloc(sizeof(uint8_t)*(len_origin));
+    uint8_t *result = NULL;
+    if (da == NULL)
+        goto cleanup;
     memset(da, 0, rounds);
     memset(da+rounds, 1, dummyrounds);
-    wRandomShuffleU8(da, len_origin);
+    if (wRandomShuffleU8(da, len_origin) != 0)
+        goto cleanup;
     int len_result = rounds + 4*dummyrounds;
-    uint8_t *result = (uint8_t*) malloc(sizeof(uint8_t)*(len_result));
+    result = (uint8_t*) malloc(sizeof(uint8_t)*(len_result));
+    if (result == NULL)
+        goto cleanup;
     uint8_t *iter = result;
     int i;
     for (i=0; i<len_origin; i++) {
@@ -98,6 +104,7 @@ uint8_t *wbsm4_gen_dummyround_array(int rounds, int dummyrounds) {
             iter ++;
         }
     }
+cleanup:
     free(da);
     return result;
 }
@@ -121,15 +128,22 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     Aff32 D[32];
     uint32_t Q_constant[3] = {0};
 
+    uint8_t *dummy_array = NULL;
     WBCRYPTO_sm4_context *sm4_key=WBCRYPTO_sm4_context_init();
+    if(sm4_key==NULL){
+        goto cleanup;
+    }
     if(wbsm4_ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE));
     }else{
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE));
     }
     InitRandom(((unsigned int)time(NULL)));
 
-    uint8_t *dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    if(dummy_array==NULL){
+        goto cleanup;
+    }
 
     for (i = 0; i < 36; i++)
     {
-- 
2.43.0


From 1a0663f8138e5b275192c737afc51aedb942ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 28/28] fix: the application FPE and the MySQL functions report
 a key setup that failed

---
 src/fpe_app/init.c | 26 +++++++++++++++++++++-----
 udf/mysql5.cpp     |  5 ++++-
 udf/mysql8.cpp     |  5 ++++-
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index ca1161b..0bcc2b9 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,26 +5,42 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
+    ctx->cipher_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
-        WBCRYPTO_sm4_init_key(sm4_ctx, key, keylen);
+        if (sm4_ctx == NULL || !WBCRYPTO_sm4_init_key(sm4_ctx, key, keylen)) {
+            WBCRYPTO_sm4_context_free(sm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
-        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, key, keylen);
+        if (wbsm4_ctx == NULL || !WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, key, keylen)) {
+            WBCRYPTO_wbsm4_context_free(wbsm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, key, keylen);
+        if (aes_ctx == NULL || !WBCRYPTO_aes_init_key(aes_ctx, key, keylen)) {
+            WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
-        WBCRYPTO_wbaes_gen_table(wbaes_ctx, key, keylen);
+        if (wbaes_ctx == NULL || !WBCRYPTO_wbaes_gen_table(wbaes_ctx, key, keylen)) {
+            WBCRYPTO_wbaes_context_free(wbaes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, key, keylen);
+        if (aes_ctx == NULL || !WBCRYPTO_aes_init_key(aes_ctx, key, keylen)) {
+            WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index bae1300..30d6e1d 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -101,7 +101,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     initid->ptr[plain_len] = '\0';
 
     WBCRYPTO_fpe_app_context app_ctx;
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (!WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1")) {
+        *error = 1;
+        return NULL;
+    }
     // released on every way out
     struct cipher_guard {
         WBCRYPTO_sm4_context *ctx;
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index a620e30..8556a07 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -101,7 +101,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     initid->ptr[plain_len] = '\0';
 
     WBCRYPTO_fpe_app_context app_ctx;
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (!WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1")) {
+        *error = 1;
+        return NULL;
+    }
     // released on every way out
     struct cipher_guard {
         WBCRYPTO_sm4_context *ctx;
-- 
2.43.0

