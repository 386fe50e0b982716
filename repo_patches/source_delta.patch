From 4da3e149c9c58e29fe6f53b709be7b8017e6d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 01/23] fix: complex binned conversion walks the carry vector
 with stride 2*inccarX

binned_zzmconv_sub and binned_ccmconv_sub used inccarX + 1, which is only
right for inccarX == 1; any other carry stride read the wrong carries.
---
 src/binned/ccmconv_sub.c | 4 ++--
 src/binned/zzmconv_sub.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binned/ccmconv_sub.c b/src/binned/ccmconv_sub.c
index 20bf1d6..7ecafa2 100644
--- a/src/binned/ccmconv_sub.c
+++ b/src/binned/ccmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_ccmconv_sub(const int fold, const float *priX, const int incpriX, const float *carX, const int inccarX, void *conv) {
-  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
diff --git a/src/binned/zzmconv_sub.c b/src/binned/zzmconv_sub.c
index 0baccc1..c4f73c7 100644
--- a/src/binned/zzmconv_sub.c
+++ b/src/binned/zzmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_zzmconv_sub(const int fold, const double *priX, const int incpriX, const double *carX, const int inccarX, void *conv) {
-  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
-- 
2.43.0


From d5574697ff2caee418aa44f66a71394557ea452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 02/23] fix: complex binned rescale tests the fields it has
 just scaled

binned_zmdrescale and binned_cmsrescale looked for underflow at
priY[i * incpriY], which for i > 0 is another bin (or the imaginary part), and
never at the imaginary part. Rescale the two parts with the real routine.
---
 src/binned/cmsrescale.c | 19 ++-----------------
 src/binned/zmdrescale.c | 19 ++-----------------
 2 files changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/binned/cmsrescale.c b/src/binned/cmsrescale.c
index 628959d..b93a976 100644
--- a/src/binned/cmsrescale.c
+++ b/src/binned/cmsrescale.c
@@ -18,21 +18,6 @@
  * @date   19 Jun 2015
  */
 void binned_cmsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
-  int i;
-  float rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_cmsupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      return;
-    }
-  }
+  binned_smsrescale(fold, X, scaleY, priY, 2 * incpriY, carY, 2 * inccarY);
+  binned_smsrescale(fold, X, scaleY, priY + 1, 2 * incpriY, carY + 1, 2 * inccarY);
 }
diff --git a/src/binned/zmdrescale.c b/src/binned/zmdrescale.c
index 6c1542a..ce2c198 100644
--- a/src/binned/zmdrescale.c
+++ b/src/binned/zmdrescale.c
@@ -18,21 +18,6 @@
  * @date   1 Jun 2015
  */
 void binned_zmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
-  int i;
-  double rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_zmdupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      break;
-    }
-  }
+  binned_dmdrescale(fold, X, scaleY, priY, 2 * incpriY, carY, 2 * inccarY);
+  binned_dmdrescale(fold, X, scaleY, priY + 1, 2 * incpriY, carY + 1, 2 * inccarY);
 }
-- 
2.43.0


From c887166e5157e544615cfd82e1d623001b9133f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 03/23] fix: free the temporary of binned_dmdmaddsq and
 binned_smsmaddsq

Every addition of a sum of squares with the smaller scale leaked one binned type.
---
 src/binned/dmdmaddsq.c | 3 +++
 src/binned/smsmaddsq.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binned/dmdmaddsq.c b/src/binned/dmdmaddsq.c
index 5a3b854..c068288 100644
--- a/src/binned/dmdmaddsq.c
+++ b/src/binned/dmdmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -36,6 +38,7 @@ double binned_dmdmaddsq(const int fold, const double scaleX, const double *priX,
     binned_dmdmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
diff --git a/src/binned/smsmaddsq.c b/src/binned/smsmaddsq.c
index 006c6ac..b48d124 100644
--- a/src/binned/smsmaddsq.c
+++ b/src/binned/smsmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -37,6 +39,7 @@ float binned_smsmaddsq(const int fold, const float scaleX, const float *priX, co
     binned_smsmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
-- 
2.43.0


From 84b7b0eba80f859dcbb9409e962e7629a3618508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 04/23] fix: complex binned printing steps over both parts of
 every bin

binned_zmprint and binned_cmprint advanced by incpriX and inccarX reals, so
they printed each part twice and never reached the second half of the bins.
---
 src/binned/cmprint.c | 2 +-
 src/binned/zmprint.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/cmprint.c b/src/binned/cmprint.c
index ef14a4a..a9e4f02 100644
--- a/src/binned/cmprint.c
+++ b/src/binned/cmprint.c
@@ -22,7 +22,7 @@
 void binned_cmprint(const int fold, const float* priX, const int incpriX, const float* carX, const int inccarX) {
   int i;
   float M;
-  for (i = 0; i < fold; i++, priX += incpriX, carX += inccarX) {
+  for (i = 0; i < fold; i++, priX += 2 * incpriX, carX += 2 * inccarX) {
     M = UFPF(priX[0]);
     printf("(2^%d: %g #%g =%g", (int)log2f(M) + 1, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
     M = UFPF(priX[1]);
diff --git a/src/binned/zmprint.c b/src/binned/zmprint.c
index 7a704c8..584a2e0 100644
--- a/src/binned/zmprint.c
+++ b/src/binned/zmprint.c
@@ -22,7 +22,7 @@
 void binned_zmprint(const int fold, const double *priX, const int incpriX, const double *carX, const int inccarX){
   int i;
   double M;
-  for (i = 0; i < fold; i++, priX += incpriX, carX += inccarX) {
+  for (i = 0; i < fold; i++, priX += 2 * incpriX, carX += 2 * inccarX) {
     M = UFP(priX[0]);
     printf("(2^%d: %g #%g =%g", (int)log2(M) + 1, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
     M = UFP(priX[1]);
-- 
2.43.0


From 23fc145e9c90bc0f047a9e260dff5345238aa402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 05/23] fix: unit in the first place of a double is a double

UFP returned float: binned_ufp overflowed to infinity above 2^128, flushed to
zero below 2^-149, and binned_dbprint printed such bins wrongly.
---
 src/common/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/common.h b/src/common/common.h
index d8b956a..4f9e120 100644
--- a/src/common/common.h
+++ b/src/common/common.h
@@ -26,7 +26,7 @@ typedef union int_float_ {
   uint32_t i;
 } int_float;
 
-inline float UFP(double X) {
+inline double UFP(double X) {
   long_double tmp_UFP;
   tmp_UFP.d = X;
   tmp_UFP.l &= (2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1);
-- 
2.43.0


From 3502fe8825c3772faf27fa343b17b51cd561bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 06/23] fix: conjugate transposed column major gemv sums over
 all M rows

---
 src/binnedBLAS/cbcgemv.ccog | 2 +-
 src/binnedBLAS/zbzgemv.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 22bbbae..95bc96c 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, N - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
+                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, M - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
               }
             }
           }
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index e99b85d..bd17bb4 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, N - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
+                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, M - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
               }
             }
           }
-- 
2.43.0


From a50dc35e64f1e15c29cedc13f0a79eac7b791c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 07/23] fix: alpha multiplies imaginary part of column major
 transposed complex gemm

---
 src/binnedBLAS/cbcgemm.ccog | 8 ++++----
 src/binnedBLAS/zbzgemm.ccog | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index 13365a6..f94071c 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 5a9c958..61f245f 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
-- 
2.43.0


From ed84396710817eb484ca0a00bf367cc6624933a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 08/23] fix: complex dot product blocks stay within half the
 endurance

---
 src/binnedBLAS/cmcdotc.ccog    |  4 ++--
 src/binnedBLAS/cmcdotu.ccog    |  4 ++--
 src/binnedBLAS/zmzdotc.ccog    |  4 ++--
 src/binnedBLAS/zmzdotu.ccog    |  4 ++--
 src/default_args.json          |  8 ++++----
 src/params.json                | 16 ++++++++--------
 src/tuned_args.json            |  8 ++++----
 src/tuned_args_peters_mac.json |  8 ++++----
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 9eddafc..b732dda 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, terminal.get_siendurance(), terminal.get_siendurance(), ["bench_rcdotc_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, terminal.get_siendurance()//2, terminal.get_siendurance()//2, ["bench_rcdotc_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 512
+#define N_block_MAX 256
 //[[[end]]]
 
 /**
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index d1b256d..7f95446 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, terminal.get_siendurance(), terminal.get_siendurance(), ["bench_rcdotu_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, terminal.get_siendurance()//2, terminal.get_siendurance()//2, ["bench_rcdotu_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 512
+#define N_block_MAX 256
 //[[[end]]]
 
 /**
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 2200f3a..14c51c0 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, terminal.get_diendurance(), terminal.get_diendurance(), ["bench_rzdotc_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, terminal.get_diendurance()//2, terminal.get_diendurance()//2, ["bench_rzdotc_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 2048
+#define N_block_MAX 1024
 //[[[end]]]
 
 /**
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index cb2b75f..1feb367 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, terminal.get_diendurance(), terminal.get_diendurance(), ["bench_rzdotu_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, terminal.get_diendurance()//2, terminal.get_diendurance()//2, ["bench_rzdotu_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 2048
+#define N_block_MAX 1024
 //[[[end]]]
 
 /**
diff --git a/src/default_args.json b/src/default_args.json
index e20a431..164b11f 100644
--- a/src/default_args.json
+++ b/src/default_args.json
@@ -113,8 +113,8 @@
   "cdepositSum_max_unroll_width_SSE_fold_2": 1,
   "cdepositSum_max_unroll_width_SSE_fold_3": 1,
   "cdepositSum_max_unroll_width_SSE_fold_4": 1,
-  "cmcdotc_block_size_N_block_MAX": 512,
-  "cmcdotu_block_size_N_block_MAX": 512,
+  "cmcdotc_block_size_N_block_MAX": 256,
+  "cmcdotu_block_size_N_block_MAX": 256,
   "cmcsum_block_size_N_block_MAX": 512,
   "damax_max_unroll_width_AVX": 4,
   "damax_max_unroll_width_SISD": 1,
@@ -668,7 +668,7 @@
   "zdepositSum_max_unroll_width_SSE_fold_2": 1,
   "zdepositSum_max_unroll_width_SSE_fold_3": 1,
   "zdepositSum_max_unroll_width_SSE_fold_4": 1,
-  "zmzdotc_block_size_N_block_MAX": 2048,
-  "zmzdotu_block_size_N_block_MAX": 2048,
+  "zmzdotc_block_size_N_block_MAX": 1024,
+  "zmzdotu_block_size_N_block_MAX": 1024,
   "zmzsum_block_size_N_block_MAX": 2048
 }
\ No newline at end of file
diff --git a/src/params.json b/src/params.json
index 07c7f7b..01aec74 100644
--- a/src/params.json
+++ b/src/params.json
@@ -7066,17 +7066,17 @@
       ]
     },
     "cmcdotc_block_size_N_block_MAX": {
-      "default": 512,
+      "default": 256,
       "flavor": "poweroftwo",
-      "maximum": 512,
+      "maximum": 256,
       "minimum": 32,
       "name": "cmcdotc_block_size_N_block_MAX",
       "tags": []
     },
     "cmcdotu_block_size_N_block_MAX": {
-      "default": 512,
+      "default": 256,
       "flavor": "poweroftwo",
-      "maximum": 512,
+      "maximum": 256,
       "minimum": 32,
       "name": "cmcdotu_block_size_N_block_MAX",
       "tags": []
@@ -13999,17 +13999,17 @@
       ]
     },
     "zmzdotc_block_size_N_block_MAX": {
-      "default": 2048,
+      "default": 1024,
       "flavor": "poweroftwo",
-      "maximum": 2048,
+      "maximum": 1024,
       "minimum": 32,
       "name": "zmzdotc_block_size_N_block_MAX",
       "tags": []
     },
     "zmzdotu_block_size_N_block_MAX": {
-      "default": 2048,
+      "default": 1024,
       "flavor": "poweroftwo",
-      "maximum": 2048,
+      "maximum": 1024,
       "minimum": 32,
       "name": "zmzdotu_block_size_N_block_MAX",
       "tags": []
diff --git a/src/tuned_args.json b/src/tuned_args.json
index a2ae826..184669f 100644
--- a/src/tuned_args.json
+++ b/src/tuned_args.json
@@ -113,8 +113,8 @@
   "cbcgemv_block_size_XY_BLOCK": 16384,
   "cbcgemv_block_size_YT_BLOCK": 64,
   "cbcgemv_block_size_Y_BLOCK": 2,
-  "cmcdotc_block_size_N_block_MAX": 512,
-  "cmcdotu_block_size_N_block_MAX": 512,
+  "cmcdotc_block_size_N_block_MAX": 256,
+  "cmcdotu_block_size_N_block_MAX": 256,
   "cmcsum_block_size_N_block_MAX": 512,
   "damax_max_unroll_width_AVX": 32,
   "damax_max_unroll_width_SISD": 1,
@@ -668,7 +668,7 @@
   "zbzgemv_block_size_XY_BLOCK": 16384,
   "zbzgemv_block_size_YT_BLOCK": 64,
   "zbzgemv_block_size_Y_BLOCK": 4,
-  "zmzdotc_block_size_N_block_MAX": 2048,
-  "zmzdotu_block_size_N_block_MAX": 2048,
+  "zmzdotc_block_size_N_block_MAX": 1024,
+  "zmzdotu_block_size_N_block_MAX": 1024,
   "zmzsum_block_size_N_block_MAX": 2048
 }
diff --git a/src/tuned_args_peters_mac.json b/src/tuned_args_peters_mac.json
index 56db8eb..1026456 100644
--- a/src/tuned_args_peters_mac.json
+++ b/src/tuned_args_peters_mac.json
@@ -113,8 +113,8 @@
   "cbcgemv_block_size_XY_BLOCK": 8192,
   "cbcgemv_block_size_YT_BLOCK": 128,
   "cbcgemv_block_size_Y_BLOCK": 1,
-  "cmcdotc_block_size_N_block_MAX": 512,
-  "cmcdotu_block_size_N_block_MAX": 512,
+  "cmcdotc_block_size_N_block_MAX": 256,
+  "cmcdotu_block_size_N_block_MAX": 256,
   "cmcsum_block_size_N_block_MAX": 512,
   "damax_max_unroll_width_AVX": 28,
   "damax_max_unroll_width_SISD": 1,
@@ -668,7 +668,7 @@
   "zbzgemv_block_size_XY_BLOCK": 16384,
   "zbzgemv_block_size_YT_BLOCK": 64,
   "zbzgemv_block_size_Y_BLOCK": 2,
-  "zmzdotc_block_size_N_block_MAX": 2048,
-  "zmzdotu_block_size_N_block_MAX": 2048,
+  "zmzdotc_block_size_N_block_MAX": 1024,
+  "zmzdotu_block_size_N_block_MAX": 1024,
   "zmzsum_block_size_N_block_MAX": 2048
 }
\ No newline at end of file
-- 
2.43.0


From f1db1cd93db901080d2ffa2951b11fce34abbf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 09/23] fix: only non-finite summands are added to the primary
 field directly

---
 src/binnedBLAS/cmcdotc.ccog | 14 ++++++++++++--
 src/binnedBLAS/cmcdotu.ccog | 14 ++++++++++++--
 src/binnedBLAS/cmcsum.ccog  |  8 ++++++--
 src/binnedBLAS/dmddot.ccog  |  4 +++-
 src/binnedBLAS/dmdsum.ccog  |  4 +++-
 src/binnedBLAS/smsdot.ccog  |  4 +++-
 src/binnedBLAS/smssum.ccog  |  4 +++-
 src/binnedBLAS/zmzdotc.ccog | 14 ++++++++++++--
 src/binnedBLAS/zmzdotu.ccog | 14 ++++++++++++--
 src/binnedBLAS/zmzsum.ccog  |  8 ++++++--
 10 files changed, 72 insertions(+), 16 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index b732dda..42503c8 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY])) {
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])) {
+          priZ[0] += x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY + 1])) {
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY])) {
+          priZ[1] -= x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index 7f95446..bccec04 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY])) {
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])) {
+          priZ[0] -= x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY + 1])) {
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY])) {
+          priZ[1] += x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 2c599fd..9a2408c 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -70,12 +70,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINFF(x[j * 2 * incX])) {
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINFF(x[j * 2 * incX + 1])) {
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 2f38a52..f766754 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -69,7 +69,9 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        if (ISNANINF(X[j * incX] * Y[j * incY])) {
+          priZ[0] += X[j * incX] * Y[j * incY];
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index b67b791..6a94f14 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -67,7 +67,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINF(X[j * incX])) {
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 408ef3f..f76b97e 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -69,7 +69,9 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        if (ISNANINFF(X[j * incX] * Y[j * incY])) {
+          priZ[0] += X[j * incX] * Y[j * incY];
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 330aeaf..3e2ef40 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -68,7 +68,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINFF(X[j * incX])) {
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 14c51c0..d6d878e 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY])) {
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])) {
+          priZ[0] += x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY + 1])) {
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY])) {
+          priZ[1] -= x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 1feb367..6d706a2 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY])) {
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])) {
+          priZ[0] -= x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY + 1])) {
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY])) {
+          priZ[1] += x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 168c2be..5a612ac 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -69,12 +69,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINF(x[j * 2 * incX])) {
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINF(x[j * 2 * incX + 1])) {
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
-- 
2.43.0


From 525b4e325d24264b11be5c628e507fb3ee2faa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 10/23] fix: reported error bound covers what falls below the
 last bin

---
 src/binned/dbbound.c | 2 +-
 src/binned/sbbound.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/dbbound.c b/src/binned/dbbound.c
index cbdeea4..46087e1 100644
--- a/src/binned/dbbound.c
+++ b/src/binned/dbbound.c
@@ -19,5 +19,5 @@
  * @date   31 Jul 2015
  */
 double binned_dbbound(const int fold, const int N, const double X, const double S) {
-  return MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * DBWIDTH + 1) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
+  return MAX(MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * DBWIDTH + 1), ldexp(0.5, DBL_MAX_EXP - DBWIDTH + 1 - binned_DBMAXINDEX * DBWIDTH)) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
 }
diff --git a/src/binned/sbbound.c b/src/binned/sbbound.c
index 05ca953..52ff127 100644
--- a/src/binned/sbbound.c
+++ b/src/binned/sbbound.c
@@ -23,5 +23,5 @@
  * @date   21 May 2015
  */
 float binned_sbbound(const int fold, const int N, const float X, const float S) {
-  return (float)(MAX(fabs((double)X), ldexp(0.5, FLT_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * SBWIDTH + 1) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
+  return (float)(MAX(MAX(fabs((double)X), ldexp(0.5, FLT_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * SBWIDTH + 1), ldexp(0.5, FLT_MAX_EXP - SBWIDTH + 1 - binned_SBMAXINDEX * SBWIDTH)) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
 }
-- 
2.43.0


From 2b63bd9fe81866984a0404285babc285917e9389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 11/23] fix: reference bins are filled in before threads can
 race for them

---
 src/binned/dmbins.c | 30 +++++++++++++++++++-----------
 src/binned/smbins.c | 30 +++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/binned/dmbins.c b/src/binned/dmbins.c
index 761cb4f..32d5073 100644
--- a/src/binned/dmbins.c
+++ b/src/binned/dmbins.c
@@ -7,6 +7,24 @@
 static double bins[binned_DBMAXINDEX + binned_DBMAXFOLD];
 static int bins_initialized = 0;
 
+//filled in before threads can exist where the compiler supports it, otherwise on first use
+#if defined(__GNUC__)
+__attribute__((constructor))
+#endif
+static void bins_initialize(void){
+  int index;
+
+  bins[0] = 2.0 * ldexp(0.75, DBL_MAX_EXP - 1);
+  for(index = 1; index <= binned_DBMAXINDEX; index++){
+    bins[index] = ldexp(0.75, (DBL_MAX_EXP + DBL_MANT_DIG - DBWIDTH + 1 - index * DBWIDTH));
+  }
+  for(; index < binned_DBMAXINDEX + binned_DBMAXFOLD; index++){
+    bins[index] = bins[index - 1];
+  }
+
+  bins_initialized = 1;
+}
+
 /**
  * @internal
  * @brief Get binned double precision reference bins
@@ -21,18 +39,8 @@ static int bins_initialized = 0;
  * @date   19 Jun 2015
  */
 const double *binned_dmbins(const int X) {
-  int index;
-
   if (!bins_initialized) {
-    bins[0] = 2.0 * ldexp(0.75, DBL_MAX_EXP - 1);
-    for(index = 1; index <= binned_DBMAXINDEX; index++){
-      bins[index] = ldexp(0.75, (DBL_MAX_EXP + DBL_MANT_DIG - DBWIDTH + 1 - index * DBWIDTH));
-    }
-    for(; index < binned_DBMAXINDEX + binned_DBMAXFOLD; index++){
-      bins[index] = bins[index - 1];
-    }
-
-    bins_initialized = 1;
+    bins_initialize();
   }
 
   return (const double*)bins + X;
diff --git a/src/binned/smbins.c b/src/binned/smbins.c
index 20ec7e7..e82411e 100644
--- a/src/binned/smbins.c
+++ b/src/binned/smbins.c
@@ -7,6 +7,24 @@
 static float bins[binned_SBMAXINDEX + binned_SBMAXFOLD];
 static int bins_initialized = 0;
 
+//filled in before threads can exist where the compiler supports it, otherwise on first use
+#if defined(__GNUC__)
+__attribute__((constructor))
+#endif
+static void bins_initialize(void){
+  int index;
+
+  bins[0] = ldexpf(0.75, FLT_MAX_EXP);
+  for(index = 1; index <= binned_SBMAXINDEX; index++){
+    bins[index] = ldexpf(0.75, (FLT_MAX_EXP + FLT_MANT_DIG - SBWIDTH + 1 - index * SBWIDTH));
+  }
+  for(; index < binned_SBMAXINDEX + binned_SBMAXFOLD; index++){
+    bins[index] = bins[index - 1];
+  }
+
+  bins_initialized = 1;
+}
+
 /**
  * @internal
  * @brief Get binned single precision reference bins
@@ -21,18 +39,8 @@ static int bins_initialized = 0;
  * @date   19 Jun 2015
  */
 const float *binned_smbins(const int X) {
-  int index;
-
   if (!bins_initialized){
-    bins[0] = ldexpf(0.75, FLT_MAX_EXP);
-    for(index = 1; index <= binned_SBMAXINDEX; index++){
-      bins[index] = ldexpf(0.75, (FLT_MAX_EXP + FLT_MANT_DIG - SBWIDTH + 1 - index * SBWIDTH));
-    }
-    for(; index < binned_SBMAXINDEX + binned_SBMAXFOLD; index++){
-      bins[index] = bins[index - 1];
-    }
-
-    bins_initialized = 1;
+    bins_initialize();
   }
 
   return (const float*)bins + X;
-- 
2.43.0


From 2b487f34a85ab80a790132928fd024c9e8420cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 12/23] fix: MPI reductions exist for every fold up to the
 largest

---
 src/binnedMPI/CBCBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/DBDBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/DBDBADDSQ.ccog | 12 ++++++++++--
 src/binnedMPI/SBSBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/SBSBADDSQ.ccog | 12 ++++++++++--
 src/binnedMPI/ZBZBADD.ccog   | 12 ++++++++++--
 6 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/binnedMPI/CBCBADD.ccog b/src/binnedMPI/CBCBADD.ccog
index 0cb62a0..b6d987f 100644
--- a/src/binnedMPI/CBCBADD.ccog
+++ b/src/binnedMPI/CBCBADD.ccog
@@ -9,7 +9,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxfold() + 1):
   cog.outl("static void binnedMPI_cbcbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_cbcbaddv({}, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -91,6 +91,10 @@ static void binnedMPI_cbcbadd_20(void *invec, void *inoutvec, int *len, MPI_Data
   binned_cbcbaddv(20, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_cbcbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_cbcbaddv(21, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -120,7 +124,7 @@ MPI_Op binnedMPI_CBCBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_cbcbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -202,6 +206,10 @@ MPI_Op binnedMPI_CBCBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_cbcbadd_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_cbcbadd_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/DBDBADD.ccog b/src/binnedMPI/DBDBADD.ccog
index 7d545b0..4bcfce4 100644
--- a/src/binnedMPI/DBDBADD.ccog
+++ b/src/binnedMPI/DBDBADD.ccog
@@ -9,7 +9,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_dbdbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_dbdbaddv({}, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -215,6 +215,10 @@ static void binnedMPI_dbdbadd_51(void *invec, void *inoutvec, int *len, MPI_Data
   binned_dbdbaddv(51, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_dbdbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_dbdbaddv(52, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -244,7 +248,7 @@ MPI_Op binnedMPI_DBDBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_dbdbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -450,6 +454,10 @@ MPI_Op binnedMPI_DBDBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_dbdbadd_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_dbdbadd_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 00fd85c..d9605f8 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -16,7 +16,7 @@ static inline void dbdbaddsqv(const int fold, const int N, const double *X, doub
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_dbdbaddsq_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  dbdbaddsqv({}, *len, (double*)invec, (double*)inoutvec);".format(fold))
   cog.outl("}")
@@ -222,6 +222,10 @@ static void binnedMPI_dbdbaddsq_51(void *invec, void *inoutvec, int *len, MPI_Da
   dbdbaddsqv(51, *len, (double*)invec, (double*)inoutvec);
 }
 
+static void binnedMPI_dbdbaddsq_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  dbdbaddsqv(52, *len, (double*)invec, (double*)inoutvec);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -253,7 +257,7 @@ MPI_Op binnedMPI_DBDBADDSQ(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_dbdbaddsq_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -459,6 +463,10 @@ MPI_Op binnedMPI_DBDBADDSQ(const int fold){
         rc = MPI_Op_create(&binnedMPI_dbdbaddsq_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_dbdbaddsq_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/SBSBADD.ccog b/src/binnedMPI/SBSBADD.ccog
index e07c624..ac1f426 100644
--- a/src/binnedMPI/SBSBADD.ccog
+++ b/src/binnedMPI/SBSBADD.ccog
@@ -8,7 +8,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxfold() + 1):
   cog.outl("static void binnedMPI_sbsbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_sbsbaddv({}, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -90,6 +90,10 @@ static void binnedMPI_sbsbadd_20(void *invec, void *inoutvec, int *len, MPI_Data
   binned_sbsbaddv(20, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_sbsbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_sbsbaddv(21, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -119,7 +123,7 @@ MPI_Op binnedMPI_SBSBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_sbsbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -201,6 +205,10 @@ MPI_Op binnedMPI_SBSBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_sbsbadd_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_sbsbadd_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index 20e0137..379c89d 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -15,7 +15,7 @@ static inline void sbsbaddsqv(const int fold, const int N, const float *X, float
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxfold() + 1):
   cog.outl("static void binnedMPI_sbsbaddsq_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  sbsbaddsqv({}, *len, (float*)invec, (float*)inoutvec);".format(fold))
   cog.outl("}")
@@ -97,6 +97,10 @@ static void binnedMPI_sbsbaddsq_20(void *invec, void *inoutvec, int *len, MPI_Da
   sbsbaddsqv(20, *len, (float*)invec, (float*)inoutvec);
 }
 
+static void binnedMPI_sbsbaddsq_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  sbsbaddsqv(21, *len, (float*)invec, (float*)inoutvec);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -128,7 +132,7 @@ MPI_Op binnedMPI_SBSBADDSQ(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_sbsbaddsq_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -210,6 +214,10 @@ MPI_Op binnedMPI_SBSBADDSQ(const int fold){
         rc = MPI_Op_create(&binnedMPI_sbsbaddsq_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_sbsbaddsq_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 7441faf..6f36ecf 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -8,7 +8,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_dbdbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -214,6 +214,10 @@ static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Data
   binned_dbdbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_zbzbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_dbdbaddv(52, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -243,7 +247,7 @@ MPI_Op binnedMPI_ZBZBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_zbzbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -449,6 +453,10 @@ MPI_Op binnedMPI_ZBZBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_zbzbadd_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_zbzbadd_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
-- 
2.43.0


From fc1606082708bae25b0e53ca9ac3c0ddc869b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 13/23] fix: MPI sum of squares keeps the updated scale

---
 src/binnedMPI/DBDBADDSQ.ccog | 2 +-
 src/binnedMPI/SBSBADDSQ.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index d9605f8..774d537 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -9,7 +9,7 @@
 static inline void dbdbaddsqv(const int fold, const int N, const double *X, double *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
   }
 }
 
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index 379c89d..c556d40 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -8,7 +8,7 @@
 static inline void sbsbaddsqv(const int fold, const int N, const float *X, float *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
   }
 }
 
-- 
2.43.0


From 90901cc7cd8f8c8caa473430034cc452c5bbddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 14/23] fix: rescale keeps infinities and bins stay bins when
 they fall below the last

---
 src/binned/dmdrescale.c | 11 ++++++++---
 src/binned/smsrescale.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index d18c8b6..ebb6142 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -1,5 +1,7 @@
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned double precision sum of squares
@@ -20,16 +22,19 @@
 void binned_dmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
   int i;
   double rescaleY;
+  double least;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINF(priY[0])){
     return;
   }
 
   rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
+  least = 0.5 * binned_dmbins(binned_DBMAXINDEX)[0];
   for(i = 0; i < fold; i++){
     priY[i * incpriY] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
+    priY[i * incpriY] /= rescaleY;
+    if(priY[i * incpriY] < least){
+      priY[i * incpriY] = 0.0;
       binned_dmdupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
       return;
     }
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 508fbf4..af8bd3f 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -1,5 +1,7 @@
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned single precision sum of squares
@@ -20,16 +22,19 @@
 void binned_smsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
   int i;
   float rescaleY;
+  float least;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINFF(priY[0])){
     return;
   }
 
   rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
+  least = 0.5 * binned_smbins(binned_SBMAXINDEX)[0];
   for(i = 0; i < fold; i++){
     priY[i * incpriY] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
+    priY[i * incpriY] /= rescaleY;
+    if(priY[i * incpriY] < least){
+      priY[i * incpriY] = 0.0;
       binned_smsupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
       return;
     }
-- 
2.43.0


From 91f9f13d7938b8b877297d03b59e36e420c13425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 15/23] fix: header helpers have internal linkage so that
 unoptimised builds link

---
 src/common/common.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/common.h b/src/common/common.h
index 4f9e120..aa6a9c8 100644
--- a/src/common/common.h
+++ b/src/common/common.h
@@ -26,21 +26,21 @@ typedef union int_float_ {
   uint32_t i;
 } int_float;
 
-inline double UFP(double X) {
+static inline double UFP(double X) {
   long_double tmp_UFP;
   tmp_UFP.d = X;
   tmp_UFP.l &= (2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1);
   return tmp_UFP.d;
 }
 
-inline float UFPF(float X) {
+static inline float UFPF(float X) {
   int_float tmp_UFPF;
   tmp_UFPF.f = X;
   tmp_UFPF.i &= (2ul * FLT_MAX_EXP - 1) << (FLT_MANT_DIG - 1);
   return tmp_UFPF.f;
 }
 
-inline int EXP(double X) {
+static inline int EXP(double X) {
   long_double tmp_EXP;
   tmp_EXP.d = X;
   return (tmp_EXP.l >> (DBL_MANT_DIG - 1)) & (2 * DBL_MAX_EXP - 1);
@@ -48,7 +48,7 @@ inline int EXP(double X) {
 
 #define EXP_BIAS (DBL_MAX_EXP - 2)
 
-inline int EXPF(float X) {
+static inline int EXPF(float X) {
   int_float tmp_EXPF;
   tmp_EXPF.f = X;
   return (tmp_EXPF.i >> (FLT_MANT_DIG - 1)) & (2 * FLT_MAX_EXP - 1);
@@ -56,13 +56,13 @@ inline int EXPF(float X) {
 
 #define EXPF_BIAS (FLT_MAX_EXP - 2)
 
-inline int ISNANINF(double X) {
+static inline int ISNANINF(double X) {
   long_double tmp_ISNANINF;
   tmp_ISNANINF.d = X;
   return (tmp_ISNANINF.l & ((2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1))) == ((2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1));
 }
 
-inline int ISNANINFF(float X) {
+static inline int ISNANINFF(float X) {
   int_float tmp_ISNANINFF;
   tmp_ISNANINFF.f = X;
   return (tmp_ISNANINFF.i & ((2ul * FLT_MAX_EXP - 1) << (FLT_MANT_DIG - 1))) == ((2ul * FLT_MAX_EXP - 1) << (FLT_MANT_DIG - 1));
-- 
2.43.0


From 4f9576dff720c292cd9f4bc6400cbe13ceff9fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 16/23] fix: MPI reduction of complex double accumulators adds
 both parts

---
 src/binnedMPI/ZBZBADD.ccog | 104 ++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 6f36ecf..4939355 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -10,212 +10,212 @@ import cog
 from scripts import terminal
 for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
-  cog.outl("  binned_dbdbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
+  cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
   cog.outl("")
 ]]]*/
 static void binnedMPI_zbzbadd_2(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_3(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_4(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_5(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_6(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_7(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_8(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_9(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_10(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_11(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_12(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_13(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_14(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_15(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_16(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_17(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_18(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_19(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_20(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_22(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_23(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_24(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_25(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_26(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_27(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_28(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_29(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_30(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_31(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_32(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_33(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_34(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_35(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_36(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_37(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_38(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_39(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_40(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_41(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_42(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_43(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_44(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_45(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_46(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_47(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_48(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_49(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_50(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(52, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(52, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 //[[[end]]]
-- 
2.43.0


From 12e264128bc26f08f8528f6462e5fc64ddc90614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 17/23] fix: packed complex binned printing passes strides in
 complex elements

---
 src/binned/cbprint.c | 2 +-
 src/binned/zbprint.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/cbprint.c b/src/binned/cbprint.c
index 819117b..0281195 100644
--- a/src/binned/cbprint.c
+++ b/src/binned/cbprint.c
@@ -11,5 +11,5 @@
  * @date   27 Apr 2015
  */
 void binned_cbprint(const int fold, const float_complex_binned *X) {
-  binned_cmprint(fold, X, 2, X + fold * 2, 2);
+  binned_cmprint(fold, X, 1, X + fold * 2, 1);
 }
diff --git a/src/binned/zbprint.c b/src/binned/zbprint.c
index 3a5788b..d7e7bc5 100644
--- a/src/binned/zbprint.c
+++ b/src/binned/zbprint.c
@@ -11,5 +11,5 @@
  * @date   27 Apr 2015
  */
 void binned_zbprint(const int fold, const double_complex_binned *X){
-  binned_zmprint(fold, X, 2, X + 2 * fold, 2);
+  binned_zmprint(fold, X, 1, X + 2 * fold, 1);
 }
-- 
2.43.0


From e5c03f6e85eadab70cc14ff04f6a7e3bd8b0b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 18/23] fix: printing an empty or special accumulator does not
 cast an infinite logarithm

---
 src/binned/cmprint.c | 4 ++--
 src/binned/dmprint.c | 2 +-
 src/binned/smprint.c | 2 +-
 src/binned/zmprint.c | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/binned/cmprint.c b/src/binned/cmprint.c
index a9e4f02..26b90aa 100644
--- a/src/binned/cmprint.c
+++ b/src/binned/cmprint.c
@@ -24,8 +24,8 @@ void binned_cmprint(const int fold, const float* priX, const int incpriX, const
   float M;
   for (i = 0; i < fold; i++, priX += 2 * incpriX, carX += 2 * inccarX) {
     M = UFPF(priX[0]);
-    printf("(2^%d: %g #%g =%g", (int)log2f(M) + 1, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
+    printf("(2^%d: %g #%g =%g", EXPF(M) - EXPF_BIAS, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
     M = UFPF(priX[1]);
-    printf("| 2^%d: %g #%g =%g)\n", (int)log2f(M) + 1, priX[1] - 1.5*M, carX[1], ((carX[1] - 6) * 0.25 * M + priX[1]));
+    printf("| 2^%d: %g #%g =%g)\n", EXPF(M) - EXPF_BIAS, priX[1] - 1.5*M, carX[1], ((carX[1] - 6) * 0.25 * M + priX[1]));
   }
 }
diff --git a/src/binned/dmprint.c b/src/binned/dmprint.c
index d2136ff..1e429c0 100644
--- a/src/binned/dmprint.c
+++ b/src/binned/dmprint.c
@@ -24,6 +24,6 @@ void binned_dmprint(const int fold, const double *priX, const int incpriX, const
   double M;
   for (i = 0; i < fold; i++, priX += incpriX, carX += inccarX) {
     M = UFP(priX[0]);
-    printf("(2^%d: %g #%g =%g)\n", (int)log2(M) + 1, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
+    printf("(2^%d: %g #%g =%g)\n", EXP(M) - EXP_BIAS, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
   }
 }
diff --git a/src/binned/smprint.c b/src/binned/smprint.c
index d8de1d6..7aecbcf 100644
--- a/src/binned/smprint.c
+++ b/src/binned/smprint.c
@@ -24,6 +24,6 @@ void binned_smprint(const int fold, const float *priX, const int incpriX, const
   float M;
   for (i = 0; i < fold; i++, priX += incpriX, carX += inccarX) {
     M = UFPF(priX[0]);
-    printf("(2^%d: %g #%g =%g)\n", (int)log2f(M) + 1, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
+    printf("(2^%d: %g #%g =%g)\n", EXPF(M) - EXPF_BIAS, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
   }
 }
diff --git a/src/binned/zmprint.c b/src/binned/zmprint.c
index 584a2e0..b6484fc 100644
--- a/src/binned/zmprint.c
+++ b/src/binned/zmprint.c
@@ -24,8 +24,8 @@ void binned_zmprint(const int fold, const double *priX, const int incpriX, const
   double M;
   for (i = 0; i < fold; i++, priX += 2 * incpriX, carX += 2 * inccarX) {
     M = UFP(priX[0]);
-    printf("(2^%d: %g #%g =%g", (int)log2(M) + 1, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
+    printf("(2^%d: %g #%g =%g", EXP(M) - EXP_BIAS, priX[0] - 1.5*M, carX[0], ((carX[0] - 6) * 0.25 * M + priX[0]));
     M = UFP(priX[1]);
-    printf("| 2^%d: %g #%g =%g)\n", (int)log2(M) + 1, priX[1] - 1.5*M, carX[1], ((carX[1] - 6) * 0.25 * M + priX[1]));
+    printf("| 2^%d: %g #%g =%g)\n", EXP(M) - EXP_BIAS, priX[1] - 1.5*M, carX[1], ((carX[1] - 6) * 0.25 * M + priX[1]));
   }
 }
-- 
2.43.0


From ebe4384934e4eb7c7a658d6c781cedaa660a2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:03 +0000
Subject: [PATCH 19/23] fix: matrix products address operands of more than 2^31
 elements

---
 src/binnedBLAS/cbcgemm.ccog | 22 +++++++++++-----------
 src/binnedBLAS/cbcgemv.ccog | 20 ++++++++++----------
 src/binnedBLAS/dbdgemm.ccog | 16 ++++++++--------
 src/binnedBLAS/dbdgemv.ccog | 12 ++++++------
 src/binnedBLAS/sbsgemm.ccog | 16 ++++++++--------
 src/binnedBLAS/sbsgemv.ccog | 12 ++++++------
 src/binnedBLAS/zbzgemm.ccog | 22 +++++++++++-----------
 src/binnedBLAS/zbzgemv.ccog | 20 ++++++++++----------
 src/reproBLAS/rcgemm.c      | 11 ++++++-----
 src/reproBLAS/rcgemv.c      |  3 ++-
 src/reproBLAS/rdgemm.c      | 11 ++++++-----
 src/reproBLAS/rdgemv.c      |  3 ++-
 src/reproBLAS/rsgemm.c      | 11 ++++++-----
 src/reproBLAS/rsgemv.c      |  3 ++-
 src/reproBLAS/rzgemm.c      | 11 ++++++-----
 src/reproBLAS/rzgemv.c      |  3 ++-
 16 files changed, 102 insertions(+), 94 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index f94071c..708d5f5 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -64,12 +64,12 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
              const void *alpha, const void *A, const int lda,
              const void *B, const int ldb,
              float_complex_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   float *bufA;
   int ldbufa;
   float *bufB;
@@ -93,7 +93,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * 2 * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -648,7 +648,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * 2 * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -747,7 +747,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (float*)malloc(M * K * 2 * sizeof(float));
+                bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -792,7 +792,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (float*)malloc(M * K * 2 * sizeof(float));
+                bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -843,7 +843,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (float*)malloc(M * K * 2 * sizeof(float));
+                bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 95bc96c..551a743 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -59,12 +59,12 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
                       const void *alpha, const void *A, const int lda,
                       const void *X, const int incX,
                       float_complex_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   float *bufX;
   int incbufX;
   float *bufA;
@@ -87,7 +87,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(N * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)N * 2 * sizeof(float));
             for(j = 0; j < N; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
@@ -113,7 +113,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(M * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)M * 2 * sizeof(float));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
@@ -150,7 +150,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(M * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)M * 2 * sizeof(float));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
@@ -205,7 +205,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(M * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)M * 2 * sizeof(float));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
diff --git a/src/binnedBLAS/dbdgemm.ccog b/src/binnedBLAS/dbdgemm.ccog
index 5938e61..f229b75 100644
--- a/src/binnedBLAS/dbdgemm.ccog
+++ b/src/binnedBLAS/dbdgemm.ccog
@@ -64,12 +64,12 @@ void binnedBLAS_dbdgemm(const int fold, const char Order,
              const double alpha, const double *A, const int lda,
              const double *B, const int ldb,
              double_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   double *bufA;
   int ldbufa;
   double *bufB;
@@ -93,7 +93,7 @@ void binnedBLAS_dbdgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
@@ -362,7 +362,7 @@ void binnedBLAS_dbdgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
diff --git a/src/binnedBLAS/dbdgemv.ccog b/src/binnedBLAS/dbdgemv.ccog
index e59a29a..12d61a8 100644
--- a/src/binnedBLAS/dbdgemv.ccog
+++ b/src/binnedBLAS/dbdgemv.ccog
@@ -59,12 +59,12 @@ void binnedBLAS_dbdgemv(const int fold, const char Order,
                       const double alpha, const double *A, const int lda,
                       const double *X, const int incX,
                       double_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   double *bufX;
   int incbufX;
   double *bufA;
diff --git a/src/binnedBLAS/sbsgemm.ccog b/src/binnedBLAS/sbsgemm.ccog
index 96ba328..658ea37 100644
--- a/src/binnedBLAS/sbsgemm.ccog
+++ b/src/binnedBLAS/sbsgemm.ccog
@@ -64,12 +64,12 @@ void binnedBLAS_sbsgemm(const int fold, const char Order,
              const float alpha, const float *A, const int lda,
              const float *B, const int ldb,
              float_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   float *bufA;
   int ldbufa;
   float *bufB;
@@ -93,7 +93,7 @@ void binnedBLAS_sbsgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
@@ -362,7 +362,7 @@ void binnedBLAS_sbsgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
diff --git a/src/binnedBLAS/sbsgemv.ccog b/src/binnedBLAS/sbsgemv.ccog
index fa90005..8a03521 100644
--- a/src/binnedBLAS/sbsgemv.ccog
+++ b/src/binnedBLAS/sbsgemv.ccog
@@ -59,12 +59,12 @@ void binnedBLAS_sbsgemv(const int fold, const char Order,
                       const float alpha, const float *A, const int lda,
                       const float *X, const int incX,
                       float_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   float *bufX;
   int incbufX;
   float *bufA;
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 61f245f..e2eb0d2 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -64,12 +64,12 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
              const void *alpha, const void *A, const int lda,
              const void *B, const int ldb,
              double_complex_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   double *bufA;
   int ldbufa;
   double *bufB;
@@ -93,7 +93,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * 2 * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -648,7 +648,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * 2 * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -747,7 +747,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (double*)malloc(M * K * 2 * sizeof(double));
+                bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -792,7 +792,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (double*)malloc(M * K * 2 * sizeof(double));
+                bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -843,7 +843,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (double*)malloc(M * K * 2 * sizeof(double));
+                bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index bd17bb4..5c3f278 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -59,12 +59,12 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
                       const void *alpha, const void *A, const int lda,
                       const void *X, const int incX,
                       double_complex_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   double *bufX;
   int incbufX;
   double *bufA;
@@ -87,7 +87,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(N * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)N * 2 * sizeof(double));
             for(j = 0; j < N; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
@@ -113,7 +113,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(M * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)M * 2 * sizeof(double));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
@@ -150,7 +150,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(M * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)M * 2 * sizeof(double));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
@@ -205,7 +205,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(M * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)M * 2 * sizeof(double));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
diff --git a/src/reproBLAS/rcgemm.c b/src/reproBLAS/rcgemm.c
index 9c8f96f..69b7f14 100644
--- a/src/reproBLAS/rcgemm.c
+++ b/src/reproBLAS/rcgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -45,19 +46,19 @@ void reproBLAS_rcgemm(const int fold, const char Order, const char TransA, const
                       const void *beta, void *C, const int ldc){
   float_complex_binned *CI;
   float betaC[2];
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (float_complex_binned*)malloc(M * N * binned_cbsize(fold));
+  CI = (float_complex_binned*)malloc((size_t)M * N * binned_cbsize(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(((float*)beta)[0] == 0.0 && ((float*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_cbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_cbsize(fold));
       }else if(((float*)beta)[0] == 1.0 && ((float*)beta)[1] == 0.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -82,7 +83,7 @@ void reproBLAS_rcgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(((float*)beta)[0] == 0.0 && ((float*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_cbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_cbsize(fold));
       }else if(((float*)beta)[0] == 1.0 && ((float*)beta)[1] == 0.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rcgemv.c b/src/reproBLAS/rcgemv.c
index 31809a8..d8b8814 100644
--- a/src/reproBLAS/rcgemv.c
+++ b/src/reproBLAS/rcgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -39,7 +40,7 @@ void reproBLAS_rcgemv(const int fold, const char Order,
                       const void *beta, void *Y, const int incY){
   float_complex_binned *YI;
   float betaY[2];
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
diff --git a/src/reproBLAS/rdgemm.c b/src/reproBLAS/rdgemm.c
index 3aa67b4..fd07183 100644
--- a/src/reproBLAS/rdgemm.c
+++ b/src/reproBLAS/rdgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -44,19 +45,19 @@ void reproBLAS_rdgemm(const int fold, const char Order, const char TransA, const
                       const double *B, const int ldb,
                       const double beta, double *C, const int ldc){
   double_binned *CI;
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (double_binned*)malloc(M * N * binned_dbsize(fold));
+  CI = (double_binned*)malloc((size_t)M * N * binned_dbsize(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_dbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_dbsize(fold));
       }else if(beta == 1.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -79,7 +80,7 @@ void reproBLAS_rdgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_dbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_dbsize(fold));
       }else if(beta == 1.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rdgemv.c b/src/reproBLAS/rdgemv.c
index 839f279..42034f3 100644
--- a/src/reproBLAS/rdgemv.c
+++ b/src/reproBLAS/rdgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -38,7 +39,7 @@ void reproBLAS_rdgemv(const int fold, const char Order,
                       const double *X, const int incX,
                       const double beta, double *Y, const int incY){
   double_binned *YI;
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
diff --git a/src/reproBLAS/rsgemm.c b/src/reproBLAS/rsgemm.c
index 0a0da01..39a53a3 100644
--- a/src/reproBLAS/rsgemm.c
+++ b/src/reproBLAS/rsgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -44,19 +45,19 @@ void reproBLAS_rsgemm(const int fold, const char Order, const char TransA, const
                       const float *B, const int ldb,
                       const float beta, float *C, const int ldc){
   float_binned *CI;
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (float_binned*)malloc(M * N * binned_sbsbze(fold));
+  CI = (float_binned*)malloc((size_t)M * N * binned_sbsbze(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_sbsbze(fold));
+        memset(CI, 0, (size_t)M * N * binned_sbsbze(fold));
       }else if(beta == 1.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -79,7 +80,7 @@ void reproBLAS_rsgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_sbsbze(fold));
+        memset(CI, 0, (size_t)M * N * binned_sbsbze(fold));
       }else if(beta == 1.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rsgemv.c b/src/reproBLAS/rsgemv.c
index 763e3e9..4b17d69 100644
--- a/src/reproBLAS/rsgemv.c
+++ b/src/reproBLAS/rsgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -38,7 +39,7 @@ void reproBLAS_rsgemv(const int fold, const char Order,
                       const float *X, const int incX,
                       const float beta, float *Y, const int incY){
   float_binned *YI;
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
diff --git a/src/reproBLAS/rzgemm.c b/src/reproBLAS/rzgemm.c
index 783e0fd..0bf2cc2 100644
--- a/src/reproBLAS/rzgemm.c
+++ b/src/reproBLAS/rzgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -45,19 +46,19 @@ void reproBLAS_rzgemm(const int fold, const char Order, const char TransA, const
                       const void *beta, void *C, const int ldc){
   double_complex_binned *CI;
   double betaC[2];
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (double_complex_binned*)malloc(M * N * binned_zbsize(fold));
+  CI = (double_complex_binned*)malloc((size_t)M * N * binned_zbsize(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(((double*)beta)[0] == 0.0 && ((double*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_zbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_zbsize(fold));
       }else if(((double*)beta)[0] == 1.0 && ((double*)beta)[1] == 0.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -82,7 +83,7 @@ void reproBLAS_rzgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(((double*)beta)[0] == 0.0 && ((double*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_zbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_zbsize(fold));
       }else if(((double*)beta)[0] == 1.0 && ((double*)beta)[1] == 0.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rzgemv.c b/src/reproBLAS/rzgemv.c
index 7097f84..627e784 100644
--- a/src/reproBLAS/rzgemv.c
+++ b/src/reproBLAS/rzgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -39,7 +40,7 @@ void reproBLAS_rzgemv(const int fold, const char Order,
                       const void *beta, void *Y, const int incY){
   double_complex_binned *YI;
   double betaY[2];
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
-- 
2.43.0


From 3b57df9ca0fdc960f2fac677ec4fd3801758de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:03 +0000
Subject: [PATCH 20/23] fix: vector routines address operands that span more
 than 2^31 elements

---
 src/binnedBLAS/camax_sub.ccog  | 5 +++--
 src/binnedBLAS/camaxm_sub.ccog | 8 +++++---
 src/binnedBLAS/cmcdotc.ccog    | 8 +++++---
 src/binnedBLAS/cmcdotu.ccog    | 8 +++++---
 src/binnedBLAS/cmcsum.ccog     | 5 +++--
 src/binnedBLAS/damax.ccog      | 5 +++--
 src/binnedBLAS/damaxm.ccog     | 8 +++++---
 src/binnedBLAS/dmdasum.ccog    | 5 +++--
 src/binnedBLAS/dmddot.ccog     | 8 +++++---
 src/binnedBLAS/dmdssq.ccog     | 5 +++--
 src/binnedBLAS/dmdsum.ccog     | 5 +++--
 src/binnedBLAS/dmzasum.ccog    | 5 +++--
 src/binnedBLAS/dmzssq.ccog     | 5 +++--
 src/binnedBLAS/samax.ccog      | 5 +++--
 src/binnedBLAS/samaxm.ccog     | 8 +++++---
 src/binnedBLAS/smcasum.ccog    | 5 +++--
 src/binnedBLAS/smcssq.ccog     | 5 +++--
 src/binnedBLAS/smsasum.ccog    | 5 +++--
 src/binnedBLAS/smsdot.ccog     | 8 +++++---
 src/binnedBLAS/smsssq.ccog     | 5 +++--
 src/binnedBLAS/smssum.ccog     | 5 +++--
 src/binnedBLAS/zamax_sub.ccog  | 5 +++--
 src/binnedBLAS/zamaxm_sub.ccog | 8 +++++---
 src/binnedBLAS/zmzdotc.ccog    | 8 +++++---
 src/binnedBLAS/zmzdotu.ccog    | 8 +++++---
 src/binnedBLAS/zmzsum.ccog     | 5 +++--
 src/common/common.h            | 1 +
 27 files changed, 99 insertions(+), 62 deletions(-)

diff --git a/src/binnedBLAS/camax_sub.ccog b/src/binnedBLAS/camax_sub.ccog
index 2fbc1f5..bf8a5f8 100644
--- a/src/binnedBLAS/camax_sub.ccog
+++ b/src/binnedBLAS/camax_sub.ccog
@@ -37,13 +37,14 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param amax scalar return
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax) {
+void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *amax) {
+  const ptrdiff_t incX = incX_;
   const float *x = (const float*)X;
   /*[[[cog
   cog.out(generate.generate(amax.AMax(dataTypes.FloatComplex, "N", "x", "incX", "amax"), cog.inFile, args, params, mode))
diff --git a/src/binnedBLAS/camaxm_sub.ccog b/src/binnedBLAS/camaxm_sub.ccog
index 9c1d10d..8f7b526 100644
--- a/src/binnedBLAS/camaxm_sub.ccog
+++ b/src/binnedBLAS/camaxm_sub.ccog
@@ -36,15 +36,17 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y complex single precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param amaxm scalar return
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const void *Y, const int incY, void *amaxm){
+void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const void *Y, const int incY_, void *amaxm){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   const float *x = (const float*)X;
   const float *y = (const float*)Y;
   /*[[[cog
diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 42503c8..3ddd58b 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -45,9 +45,9 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y complex single precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param priZ Z's primary vector
  * @param incpriZ stride within Z's primary vector (use every incpriZ'th element)
  * @param carZ Z's carry vector
@@ -56,7 +56,9 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
+void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int incX_, const void *Y, const int incY_, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   float amaxm[2];
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index bccec04..6a7cd98 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -45,9 +45,9 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y complex single precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param priZ Z's primary vector
  * @param incpriZ stride within Z's primary vector (use every incpriZ'th element)
  * @param carZ Z's carry vector
@@ -56,7 +56,9 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
+void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int incX_, const void *Y, const int incY_, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   float amaxm[2];
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 9a2408c..2ad2c4f 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -46,7 +46,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcsum", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -55,7 +55,8 @@ cog.out(generate.generate(blockSize.BlockSize("cmcsum", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
+void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int incX_, float *priY, const int incpriY, float *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   float amax[2];
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/damax.ccog b/src/binnedBLAS/damax.ccog
index 8c48d75..3b31eda 100644
--- a/src/binnedBLAS/damax.ccog
+++ b/src/binnedBLAS/damax.ccog
@@ -36,13 +36,14 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @return absolute maximum value of X
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-double binnedBLAS_damax(const int N, const double *X, const int incX){
+double binnedBLAS_damax(const int N, const double *X, const int incX_){
+  const ptrdiff_t incX = incX_;
   double amax;
   /*[[[cog
   cog.out(generate.generate(amax.AMax(dataTypes.Double, "N", "X", "incX", "(&amax)"), cog.inFile, args, params, mode))
diff --git a/src/binnedBLAS/damaxm.ccog b/src/binnedBLAS/damaxm.ccog
index 86de40a..9b6e9f4 100644
--- a/src/binnedBLAS/damaxm.ccog
+++ b/src/binnedBLAS/damaxm.ccog
@@ -36,15 +36,17 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y double precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @return absolute maximum value multiple of X and Y
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-double binnedBLAS_damaxm(const int N, const double *X, const int incX, const double *Y, const int incY){
+double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const double *Y, const int incY_){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   double amaxm;
   /*[[[cog
   cog.out(generate.generate(amaxm.AMaxM(dataTypes.Double, "N", "X", "incX", "Y", "incY", "(&amaxm)"), cog.inFile, args, params, mode))
diff --git a/src/binnedBLAS/dmdasum.ccog b/src/binnedBLAS/dmdasum.ccog
index 028d0b4..1da51a7 100644
--- a/src/binnedBLAS/dmdasum.ccog
+++ b/src/binnedBLAS/dmdasum.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("dmdasum", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -54,7 +54,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmdasum", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
+void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int incX_, double *priY, const int incpriY, double *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   double amax;
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index f766754..31ed67d 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -45,9 +45,9 @@ cog.out(generate.generate(blockSize.BlockSize("dmddot", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y double precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param priZ Z's primary vector
  * @param incpriZ stride within Z's primary vector (use every incpriZ'th element)
  * @param carZ Z's carry vector
@@ -56,7 +56,9 @@ cog.out(generate.generate(blockSize.BlockSize("dmddot", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int incX, const double *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
+void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int incX_, const double *Y, const int incY_, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   double amaxm;
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/dmdssq.ccog b/src/binnedBLAS/dmdssq.ccog
index 0cb5c38..95a0e00 100644
--- a/src/binnedBLAS/dmdssq.ccog
+++ b/src/binnedBLAS/dmdssq.ccog
@@ -46,7 +46,7 @@ cog.out(generate.generate(blockSize.BlockSize("dmdssq", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param scaleY the scaling factor of Y
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
@@ -57,7 +57,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmdssq", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   18 Jan 2016
  */
-double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int incX, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
+double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int incX_, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   double amax;
   double scl = scaleY;
   double new_scl;
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index 6a94f14..9d09b43 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("dmdsum", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -54,7 +54,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmdsum", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
+void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int incX_, double *priY, const int incpriY, double *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   double amax;
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/dmzasum.ccog b/src/binnedBLAS/dmzasum.ccog
index c298a57..2e67f54 100644
--- a/src/binnedBLAS/dmzasum.ccog
+++ b/src/binnedBLAS/dmzasum.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("dmzasum", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -54,7 +54,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmzasum", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
+void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int incX_, double *priY, const int incpriY, double *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   double amax_tmp[2];
   double amax;
   int i, j;
diff --git a/src/binnedBLAS/dmzssq.ccog b/src/binnedBLAS/dmzssq.ccog
index 80141a1..79d3c5c 100644
--- a/src/binnedBLAS/dmzssq.ccog
+++ b/src/binnedBLAS/dmzssq.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("dmzssq", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param scaleY the scaling factor of Y
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
@@ -56,7 +56,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmzssq", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   18 Jan 2016
  */
-double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int incX, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
+double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int incX_, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   double amax_tmp[2];
   double amax;
   double scl = 0.0;
diff --git a/src/binnedBLAS/samax.ccog b/src/binnedBLAS/samax.ccog
index 2255f2c..f39543b 100644
--- a/src/binnedBLAS/samax.ccog
+++ b/src/binnedBLAS/samax.ccog
@@ -36,13 +36,14 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @return absolute maximum value of X
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-float binnedBLAS_samax(const int N, const float *X, const int incX){
+float binnedBLAS_samax(const int N, const float *X, const int incX_){
+  const ptrdiff_t incX = incX_;
   float amax;
   /*[[[cog
   cog.out(generate.generate(amax.AMax(dataTypes.Float, "N", "X", "incX", "(&amax)"), cog.inFile, args, params, mode))
diff --git a/src/binnedBLAS/samaxm.ccog b/src/binnedBLAS/samaxm.ccog
index 7bf1f3c..3d0c786 100644
--- a/src/binnedBLAS/samaxm.ccog
+++ b/src/binnedBLAS/samaxm.ccog
@@ -36,15 +36,17 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y single precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @return absolute maximum value multiple of X and Y
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float *Y, const int incY){
+float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const float *Y, const int incY_){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   float amaxm;
   /*[[[cog
   cog.out(generate.generate(amaxm.AMaxM(dataTypes.Float, "N", "X", "incX", "Y", "incY", "(&amaxm)"), cog.inFile, args, params, mode))
diff --git a/src/binnedBLAS/smcasum.ccog b/src/binnedBLAS/smcasum.ccog
index 41bfd46..0809ad7 100644
--- a/src/binnedBLAS/smcasum.ccog
+++ b/src/binnedBLAS/smcasum.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("smcasum", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -54,7 +54,8 @@ cog.out(generate.generate(blockSize.BlockSize("smcasum", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
+void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int incX_, float *priY, const int incpriY, float *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   float amax_tmp[2];
   float amax;
   int i, j;
diff --git a/src/binnedBLAS/smcssq.ccog b/src/binnedBLAS/smcssq.ccog
index 125c800..a5df68f 100644
--- a/src/binnedBLAS/smcssq.ccog
+++ b/src/binnedBLAS/smcssq.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("smcssq", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param scaleY the scaling factor of Y
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
@@ -56,7 +56,8 @@ cog.out(generate.generate(blockSize.BlockSize("smcssq", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   18 Jan 2016
  */
-float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int incX, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
+float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int incX_, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   float amax_tmp[2];
   float amax;
   float scl = 0.0;
diff --git a/src/binnedBLAS/smsasum.ccog b/src/binnedBLAS/smsasum.ccog
index 9783639..599be56 100644
--- a/src/binnedBLAS/smsasum.ccog
+++ b/src/binnedBLAS/smsasum.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("smsasum", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -54,7 +54,8 @@ cog.out(generate.generate(blockSize.BlockSize("smsasum", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
+void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int incX_, float *priY, const int incpriY, float *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   float amax;
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index f76b97e..a9da7b3 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -45,9 +45,9 @@ cog.out(generate.generate(blockSize.BlockSize("smsdot", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y single precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param priZ Z's primary vector
  * @param incpriZ stride within Z's primary vector (use every incpriZ'th element)
  * @param carZ Z's carry vector
@@ -56,7 +56,9 @@ cog.out(generate.generate(blockSize.BlockSize("smsdot", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int incX, const float *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
+void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int incX_, const float *Y, const int incY_, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   float amaxm;
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/smsssq.ccog b/src/binnedBLAS/smsssq.ccog
index 4775cf9..f0fe04b 100644
--- a/src/binnedBLAS/smsssq.ccog
+++ b/src/binnedBLAS/smsssq.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("smsssq", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param scaleY the scaling factor of Y
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
@@ -56,7 +56,8 @@ cog.out(generate.generate(blockSize.BlockSize("smsssq", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   18 Jan 2016
  */
-float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int incX, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
+float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int incX_, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   float amax;
   float scl = scaleY;
   float new_scl;
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 3e2ef40..d7c21c6 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -46,7 +46,7 @@ cog.out(generate.generate(blockSize.BlockSize("smssum", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X single precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -55,7 +55,8 @@ cog.out(generate.generate(blockSize.BlockSize("smssum", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_smssum(const int fold, const int N, const float *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
+void binnedBLAS_smssum(const int fold, const int N, const float *X, const int incX_, float *priY, const int incpriY, float *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   float amax;
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/zamax_sub.ccog b/src/binnedBLAS/zamax_sub.ccog
index febdeb3..1d2e149 100644
--- a/src/binnedBLAS/zamax_sub.ccog
+++ b/src/binnedBLAS/zamax_sub.ccog
@@ -36,13 +36,14 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param amax scalar return
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax){
+void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *amax){
+  const ptrdiff_t incX = incX_;
   const double *x = (const double*)X;
   /*[[[cog
   cog.out(generate.generate(amax.AMax(dataTypes.DoubleComplex, "N", "x", "incX", "amax"), cog.inFile, args, params, mode))
diff --git a/src/binnedBLAS/zamaxm_sub.ccog b/src/binnedBLAS/zamaxm_sub.ccog
index 54a9e30..66c9336 100644
--- a/src/binnedBLAS/zamaxm_sub.ccog
+++ b/src/binnedBLAS/zamaxm_sub.ccog
@@ -36,15 +36,17 @@ cog.out(str(code_block))
  *
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y complex double precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param amaxm scalar return
  *
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const void *Y, const int incY, void *amaxm){
+void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const void *Y, const int incY_, void *amaxm){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   const double *x = (const double*)X;
   const double *y = (const double*)Y;
   /*[[[cog
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index d6d878e..9e26296 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -45,9 +45,9 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y complex double precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param priZ Z's primary vector
  * @param incpriZ stride within Z's primary vector (use every incpriZ'th element)
  * @param carZ Z's carry vector
@@ -56,7 +56,9 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
+void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int incX_, const void *Y, const int incY_, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   double amaxm[2];
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 6d706a2..3e7a635 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -45,9 +45,9 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param Y complex double precision vector
- * @param incY Y vector stride (use every incY'th element)
+ * @param incY_ Y vector stride (use every incY'th element)
  * @param priZ Z's primary vector
  * @param incpriZ stride within Z's primary vector (use every incpriZ'th element)
  * @param carZ Z's carry vector
@@ -56,7 +56,9 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
+void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int incX_, const void *Y, const int incY_, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
+  const ptrdiff_t incX = incX_;
+  const ptrdiff_t incY = incY_;
   double amaxm[2];
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 5a612ac..5cbcccf 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -45,7 +45,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzsum", "N_block_MAX", 32, termi
  * @param fold the fold of the binned types
  * @param N vector length
  * @param X complex double precision vector
- * @param incX X vector stride (use every incX'th element)
+ * @param incX_ X vector stride (use every incX'th element)
  * @param priY Y's primary vector
  * @param incpriY stride within Y's primary vector (use every incpriY'th element)
  * @param carY Y's carry vector
@@ -54,7 +54,8 @@ cog.out(generate.generate(blockSize.BlockSize("zmzsum", "N_block_MAX", 32, termi
  * @author Willow Ahrens
  * @date   15 Jan 2016
  */
-void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
+void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int incX_, double *priY, const int incpriY, double *carY, const int inccarY){
+  const ptrdiff_t incX = incX_;
   double amax[2];
   int i, j;
   int N_block = N_block_MAX;
diff --git a/src/common/common.h b/src/common/common.h
index aa6a9c8..7adeebd 100644
--- a/src/common/common.h
+++ b/src/common/common.h
@@ -5,6 +5,7 @@
 #ifndef COMMON_H_
 #define COMMON_H_
 
+#include <stddef.h>
 #include <stdint.h>
 #include <float.h>
 
-- 
2.43.0


From 85487cd4809b6c10be395408e7147bfa8c074f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 21/23] fix: products are rounded before they are summed under
 every compiler

---
 mk/config.mk | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mk/config.mk b/mk/config.mk
index 99ff8b9..8a6a874 100644
--- a/mk/config.mk
+++ b/mk/config.mk
@@ -116,6 +116,11 @@ else
   CFLAGS += -march=$(strip $(MTARGET_ARCH))
 endif
 
+# Fusing a multiplication with an addition skips the rounding of the product, so sums would depend on what the compiler fuses.
+ifeq ($(shell $(CC) -ffp-contract=off -x c -E /dev/null >$(DEVNULL) 2>&1; echo $$?), 0)
+  CFLAGS += -ffp-contract=off
+endif
+
 CALL_PYTHON = PYTHONPATH=$(TOP) $(PYTHON)
 
 # Create cog compiler
-- 
2.43.0


From ab55a3f615be837562981e972907777a0141f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 22/23] fix: block loops do not step past INT_MAX near the end
 of the longest vectors

---
 src/binnedBLAS/camax_sub.ccog  |  36 +--
 src/binnedBLAS/camaxm_sub.ccog |  28 +-
 src/binnedBLAS/cmcdotc.ccog    | 352 +++++++++++------------
 src/binnedBLAS/cmcdotu.ccog    | 432 ++++++++++++++--------------
 src/binnedBLAS/cmcsum.ccog     | 256 ++++++++---------
 src/binnedBLAS/damax.ccog      |  36 +--
 src/binnedBLAS/damaxm.ccog     |  32 +--
 src/binnedBLAS/dmdasum.ccog    | 240 ++++++++--------
 src/binnedBLAS/dmddot.ccog     | 496 ++++++++++++++++-----------------
 src/binnedBLAS/dmdssq.ccog     | 208 +++++++-------
 src/binnedBLAS/dmdsum.ccog     | 256 ++++++++---------
 src/binnedBLAS/dmzasum.ccog    | 312 ++++++++++-----------
 src/binnedBLAS/dmzssq.ccog     | 208 +++++++-------
 src/binnedBLAS/samax.ccog      |  36 +--
 src/binnedBLAS/samaxm.ccog     |  36 +--
 src/binnedBLAS/smcasum.ccog    | 248 ++++++++---------
 src/binnedBLAS/smcssq.ccog     | 200 ++++++-------
 src/binnedBLAS/smsasum.ccog    | 264 +++++++++---------
 src/binnedBLAS/smsdot.ccog     | 416 +++++++++++++--------------
 src/binnedBLAS/smsssq.ccog     | 248 ++++++++---------
 src/binnedBLAS/smssum.ccog     | 248 ++++++++---------
 src/binnedBLAS/zamax_sub.ccog  |  36 +--
 src/binnedBLAS/zamaxm_sub.ccog |  28 +-
 src/binnedBLAS/zmzdotc.ccog    | 352 +++++++++++------------
 src/binnedBLAS/zmzdotu.ccog    | 384 ++++++++++++-------------
 src/binnedBLAS/zmzsum.ccog     | 264 +++++++++---------
 src/gen/vectorizations.py      |   4 +-
 27 files changed, 2828 insertions(+), 2828 deletions(-)

diff --git a/src/binnedBLAS/camax_sub.ccog b/src/binnedBLAS/camax_sub.ccog
index bf8a5f8..4c47475 100644
--- a/src/binnedBLAS/camax_sub.ccog
+++ b/src/binnedBLAS/camax_sub.ccog
@@ -69,7 +69,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
 
     if(incX == 1){
 
-      for(i = 0; i + 32 <= N; i += 32, x += 64){
+      for(i = 0; N - i >= 32; i += 32, x += 64){
         x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
         x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
         x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -87,7 +87,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_ps(m_0, x_6);
         m_0 = _mm256_max_ps(m_0, x_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
         x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
         x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -98,14 +98,14 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_ps(m_0, x_3);
         i += 16, x += 32;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
         x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
         i += 8, x += 16;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         i += 4, x += 8;
@@ -117,7 +117,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, x += (incX * 64)){
+      for(i = 0; N - i >= 32; i += 32, x += (incX * 64)){
         x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
         x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -135,7 +135,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_ps(m_0, x_6);
         m_0 = _mm256_max_ps(m_0, x_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
         x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -146,14 +146,14 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_ps(m_0, x_3);
         i += 16, x += (incX * 32);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
         i += 8, x += (incX * 16);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         i += 4, x += (incX * 8);
@@ -194,7 +194,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
 
     if(incX == 1){
 
-      for(i = 0; i + 12 <= N; i += 12, x += 24){
+      for(i = 0; N - i >= 12; i += 12, x += 24){
         x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
         x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
         x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -208,7 +208,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_ps(m_0, x_4);
         m_0 = _mm_max_ps(m_0, x_5);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
         x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
         x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -219,14 +219,14 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_ps(m_0, x_3);
         i += 8, x += 16;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
         x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
         i += 4, x += 8;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         i += 2, x += 4;
@@ -238,7 +238,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
       }
     }else{
 
-      for(i = 0; i + 12 <= N; i += 12, x += (incX * 24)){
+      for(i = 0; N - i >= 12; i += 12, x += (incX * 24)){
         x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
         x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -252,7 +252,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_ps(m_0, x_4);
         m_0 = _mm_max_ps(m_0, x_5);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
         x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -263,14 +263,14 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_ps(m_0, x_3);
         i += 8, x += (incX * 16);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
         i += 4, x += (incX * 8);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         i += 2, x += (incX * 4);
@@ -297,7 +297,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
 
     if(incX == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, x += 2){
+      for(i = 0; N - i >= 1; i += 1, x += 2){
         x_0 = fabsf(((float*)x)[0]);
         x_1 = fabsf(((float*)x)[1]);
         m_0 = (m_0 > x_0? m_0: x_0);
@@ -305,7 +305,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX_, void *ama
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2)){
+      for(i = 0; N - i >= 1; i += 1, x += (incX * 2)){
         x_0 = fabsf(((float*)x)[0]);
         x_1 = fabsf(((float*)x)[1]);
         m_0 = (m_0 > x_0? m_0: x_0);
diff --git a/src/binnedBLAS/camaxm_sub.ccog b/src/binnedBLAS/camaxm_sub.ccog
index 8f7b526..744ee86 100644
--- a/src/binnedBLAS/camaxm_sub.ccog
+++ b/src/binnedBLAS/camaxm_sub.ccog
@@ -73,7 +73,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 16 <= N; i += 16, x += 32, y += 32){
+      for(i = 0; N - i >= 16; i += 16, x += 32, y += 32){
         x_0 = _mm256_loadu_ps(((float*)x));
         x_1 = _mm256_loadu_ps(((float*)x) + 8);
         x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -99,7 +99,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_ps(m_0, x_6);
         m_0 = _mm256_max_ps(m_0, x_7);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm256_loadu_ps(((float*)x));
         x_1 = _mm256_loadu_ps(((float*)x) + 8);
         y_0 = _mm256_loadu_ps(((float*)y));
@@ -114,7 +114,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_ps(m_0, x_3);
         i += 8, x += 16, y += 16;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_loadu_ps(((float*)x));
         y_0 = _mm256_loadu_ps(((float*)y));
         x_1 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), abs_mask_tmp);
@@ -134,7 +134,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
       }
     }else{
 
-      for(i = 0; i + 16 <= N; i += 16, x += (incX * 32), y += (incY * 32)){
+      for(i = 0; N - i >= 16; i += 16, x += (incX * 32), y += (incY * 32)){
         x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
         x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
         x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -160,7 +160,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_ps(m_0, x_6);
         m_0 = _mm256_max_ps(m_0, x_7);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
         x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
         y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -175,7 +175,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_ps(m_0, x_3);
         i += 8, x += (incX * 16), y += (incY * 16);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
         y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
         x_1 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), abs_mask_tmp);
@@ -225,7 +225,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 6 <= N; i += 6, x += 12, y += 12){
+      for(i = 0; N - i >= 6; i += 6, x += 12, y += 12){
         x_0 = _mm_loadu_ps(((float*)x));
         x_1 = _mm_loadu_ps(((float*)x) + 4);
         x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -245,7 +245,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_ps(m_0, x_4);
         m_0 = _mm_max_ps(m_0, x_5);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm_loadu_ps(((float*)x));
         x_1 = _mm_loadu_ps(((float*)x) + 4);
         y_0 = _mm_loadu_ps(((float*)y));
@@ -260,7 +260,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_ps(m_0, x_3);
         i += 4, x += 8, y += 8;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_loadu_ps(((float*)x));
         y_0 = _mm_loadu_ps(((float*)y));
         x_1 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), abs_mask_tmp);
@@ -280,7 +280,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
       }
     }else{
 
-      for(i = 0; i + 6 <= N; i += 6, x += (incX * 12), y += (incY * 12)){
+      for(i = 0; N - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
         x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
         x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
         x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -300,7 +300,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_ps(m_0, x_4);
         m_0 = _mm_max_ps(m_0, x_5);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
         x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
         y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -315,7 +315,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_ps(m_0, x_3);
         i += 4, x += (incX * 8), y += (incY * 8);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
         y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
         x_1 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), abs_mask_tmp);
@@ -351,7 +351,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, x += 2, y += 2){
+      for(i = 0; N - i >= 1; i += 1, x += 2, y += 2){
         x_0 = ((float*)x)[0];
         x_1 = ((float*)x)[1];
         y_0 = ((float*)y)[0];
@@ -367,7 +367,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX_, const vo
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2), y += (incY * 2)){
+      for(i = 0; N - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
         x_0 = ((float*)x)[0];
         x_1 = ((float*)x)[1];
         y_0 = ((float*)y)[0];
diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 3ddd58b..54aa1fc 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -172,7 +172,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -203,7 +203,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -240,7 +240,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -271,7 +271,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -325,7 +325,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -356,7 +356,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -393,7 +393,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -424,7 +424,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -480,7 +480,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -511,7 +511,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -548,7 +548,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -579,7 +579,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -633,7 +633,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -664,7 +664,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -701,7 +701,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -732,7 +732,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -825,7 +825,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += 32){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -916,7 +916,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -964,7 +964,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1017,7 +1017,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += 32){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1108,7 +1108,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1156,7 +1156,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1226,7 +1226,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += (incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1317,7 +1317,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1365,7 +1365,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1418,7 +1418,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += (incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1509,7 +1509,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1557,7 +1557,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1629,7 +1629,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += 32){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1720,7 +1720,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1768,7 +1768,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1821,7 +1821,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += 32){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1912,7 +1912,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1960,7 +1960,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -2030,7 +2030,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += (incY * 32)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2121,7 +2121,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -2169,7 +2169,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -2222,7 +2222,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += (incY * 32)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2313,7 +2313,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -2361,7 +2361,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -2478,7 +2478,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += 32){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2601,7 +2601,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -2665,7 +2665,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -2734,7 +2734,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += 32){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2857,7 +2857,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -2921,7 +2921,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -3007,7 +3007,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += (incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -3130,7 +3130,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -3194,7 +3194,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -3263,7 +3263,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += 32, y += (incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -3386,7 +3386,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -3450,7 +3450,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -3538,7 +3538,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += 32){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -3661,7 +3661,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -3725,7 +3725,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -3794,7 +3794,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += 32){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -3917,7 +3917,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -3981,7 +3981,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -4067,7 +4067,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += (incY * 32)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4190,7 +4190,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -4254,7 +4254,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -4323,7 +4323,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
+                    for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32), y += (incY * 32)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4446,7 +4446,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -4510,7 +4510,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -4646,7 +4646,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -4705,7 +4705,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -4770,7 +4770,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -4809,7 +4809,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -4871,7 +4871,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -4930,7 +4930,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -4995,7 +4995,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -5034,7 +5034,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5098,7 +5098,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -5157,7 +5157,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5222,7 +5222,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -5261,7 +5261,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5323,7 +5323,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -5382,7 +5382,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5447,7 +5447,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -5486,7 +5486,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5605,7 +5605,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += 12){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -5650,7 +5650,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -5682,7 +5682,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -5719,7 +5719,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += 12){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -5764,7 +5764,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -5796,7 +5796,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -5850,7 +5850,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += (incY * 12)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -5895,7 +5895,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -5927,7 +5927,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -5964,7 +5964,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += (incY * 12)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -6009,7 +6009,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -6041,7 +6041,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6097,7 +6097,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += 12){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -6142,7 +6142,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -6174,7 +6174,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6211,7 +6211,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += 12){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -6256,7 +6256,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -6288,7 +6288,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6342,7 +6342,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -6387,7 +6387,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -6419,7 +6419,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6456,7 +6456,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -6501,7 +6501,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -6533,7 +6533,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6626,7 +6626,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -6717,7 +6717,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -6765,7 +6765,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6818,7 +6818,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -6909,7 +6909,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -6957,7 +6957,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7027,7 +7027,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -7118,7 +7118,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -7166,7 +7166,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7219,7 +7219,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -7310,7 +7310,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -7358,7 +7358,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7430,7 +7430,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -7521,7 +7521,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -7569,7 +7569,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7622,7 +7622,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -7713,7 +7713,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -7761,7 +7761,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7831,7 +7831,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -7922,7 +7922,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -7970,7 +7970,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8023,7 +8023,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -8114,7 +8114,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -8162,7 +8162,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8279,7 +8279,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -8342,7 +8342,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8411,7 +8411,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -8474,7 +8474,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8560,7 +8560,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -8623,7 +8623,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8692,7 +8692,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -8755,7 +8755,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8843,7 +8843,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -8906,7 +8906,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8975,7 +8975,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -9038,7 +9038,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9124,7 +9124,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -9187,7 +9187,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9256,7 +9256,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -9319,7 +9319,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9455,7 +9455,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -9512,7 +9512,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9581,7 +9581,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -9618,7 +9618,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9680,7 +9680,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -9737,7 +9737,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9806,7 +9806,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -9843,7 +9843,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9907,7 +9907,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -9964,7 +9964,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -10033,7 +10033,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -10070,7 +10070,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -10132,7 +10132,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -10189,7 +10189,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -10258,7 +10258,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -10295,7 +10295,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -10414,7 +10414,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10486,7 +10486,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10584,7 +10584,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10656,7 +10656,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10756,7 +10756,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10828,7 +10828,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10926,7 +10926,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10998,7 +10998,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11138,7 +11138,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11220,7 +11220,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11300,7 +11300,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11382,7 +11382,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11464,7 +11464,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11546,7 +11546,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11626,7 +11626,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11708,7 +11708,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index 6a7cd98..55986eb 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -172,7 +172,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += 24){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -217,7 +217,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -249,7 +249,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -286,7 +286,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += 24){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -331,7 +331,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -363,7 +363,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -417,7 +417,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += (incY * 24)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -462,7 +462,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -494,7 +494,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -531,7 +531,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += (incY * 24)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -576,7 +576,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -608,7 +608,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -664,7 +664,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += 24){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -709,7 +709,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -741,7 +741,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -778,7 +778,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += 24){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -823,7 +823,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -855,7 +855,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -909,7 +909,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += (incY * 24)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -954,7 +954,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -986,7 +986,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1023,7 +1023,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += (incY * 24)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1068,7 +1068,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1100,7 +1100,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1193,7 +1193,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1240,7 +1240,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1293,7 +1293,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1340,7 +1340,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1410,7 +1410,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1457,7 +1457,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1510,7 +1510,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1557,7 +1557,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1629,7 +1629,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1676,7 +1676,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1729,7 +1729,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -1776,7 +1776,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1846,7 +1846,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1893,7 +1893,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1946,7 +1946,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -1993,7 +1993,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -2110,7 +2110,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += 48){
+                    for(i = 0; N_block - i >= 24; i += 24, x += 48, y += 48){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2293,7 +2293,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2417,7 +2417,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -2481,7 +2481,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -2550,7 +2550,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += 48){
+                    for(i = 0; N_block - i >= 24; i += 24, x += 48, y += 48){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2733,7 +2733,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2857,7 +2857,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -2921,7 +2921,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -3007,7 +3007,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += (incY * 48)){
+                    for(i = 0; N_block - i >= 24; i += 24, x += 48, y += (incY * 48)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -3190,7 +3190,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -3314,7 +3314,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -3378,7 +3378,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -3447,7 +3447,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += (incY * 48)){
+                    for(i = 0; N_block - i >= 24; i += 24, x += 48, y += (incY * 48)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -3630,7 +3630,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -3754,7 +3754,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -3818,7 +3818,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -3906,7 +3906,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += 48){
+                    for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48), y += 48){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4089,7 +4089,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4213,7 +4213,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -4277,7 +4277,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -4346,7 +4346,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += 48){
+                    for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48), y += 48){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4529,7 +4529,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4653,7 +4653,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -4717,7 +4717,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -4803,7 +4803,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += (incY * 48)){
+                    for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48), y += (incY * 48)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -4986,7 +4986,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -5110,7 +5110,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -5174,7 +5174,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -5243,7 +5243,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += (incY * 48)){
+                    for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48), y += (incY * 48)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -5426,7 +5426,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_10, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -5550,7 +5550,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -5614,7 +5614,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -5750,7 +5750,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += 64){
+                    for(i = 0; N_block - i >= 32; i += 32, x += 64, y += 64){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -5977,7 +5977,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -6093,7 +6093,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -6153,7 +6153,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -6218,7 +6218,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += 64){
+                    for(i = 0; N_block - i >= 32; i += 32, x += 64, y += 64){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -6365,7 +6365,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -6441,7 +6441,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -6481,7 +6481,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -6543,7 +6543,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += (incY * 64)){
+                    for(i = 0; N_block - i >= 32; i += 32, x += 64, y += (incY * 64)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -6770,7 +6770,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -6886,7 +6886,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -6946,7 +6946,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -7011,7 +7011,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += (incY * 64)){
+                    for(i = 0; N_block - i >= 32; i += 32, x += 64, y += (incY * 64)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -7158,7 +7158,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -7234,7 +7234,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += 32, y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -7274,7 +7274,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -7338,7 +7338,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += 64){
+                    for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64), y += 64){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -7565,7 +7565,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -7681,7 +7681,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -7741,7 +7741,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -7806,7 +7806,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += 64){
+                    for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64), y += 64){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -7953,7 +7953,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -8029,7 +8029,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += 32;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
@@ -8069,7 +8069,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -8131,7 +8131,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += (incY * 64)){
+                    for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64), y += (incY * 64)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -8358,7 +8358,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -8474,7 +8474,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -8534,7 +8534,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -8599,7 +8599,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += (incY * 64)){
+                    for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64), y += (incY * 64)){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -8746,7 +8746,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_14, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -8822,7 +8822,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
                       i += 16, x += (incX * 32), y += (incY * 32);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -8862,7 +8862,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -8981,7 +8981,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += 24){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9068,7 +9068,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9128,7 +9128,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -9160,7 +9160,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -9197,7 +9197,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += 24){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9284,7 +9284,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9344,7 +9344,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -9376,7 +9376,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -9430,7 +9430,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += (incY * 24)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9517,7 +9517,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9577,7 +9577,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -9609,7 +9609,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -9646,7 +9646,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += 24, y += (incY * 24)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9733,7 +9733,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -9793,7 +9793,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -9825,7 +9825,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -9881,7 +9881,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += 24){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -9968,7 +9968,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10028,7 +10028,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -10060,7 +10060,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10097,7 +10097,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += 24){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10184,7 +10184,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10244,7 +10244,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -10276,7 +10276,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10330,7 +10330,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += (incY * 24)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10417,7 +10417,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10477,7 +10477,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -10509,7 +10509,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10546,7 +10546,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
+                    for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24), y += (incY * 24)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10633,7 +10633,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_10, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -10693,7 +10693,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -10725,7 +10725,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10822,7 +10822,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -10869,7 +10869,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10922,7 +10922,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -10969,7 +10969,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11039,7 +11039,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -11086,7 +11086,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11139,7 +11139,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -11186,7 +11186,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11258,7 +11258,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -11305,7 +11305,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11358,7 +11358,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -11405,7 +11405,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11475,7 +11475,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -11522,7 +11522,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11575,7 +11575,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -11622,7 +11622,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11739,7 +11739,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -11802,7 +11802,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11871,7 +11871,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -11934,7 +11934,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12020,7 +12020,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -12083,7 +12083,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12152,7 +12152,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -12215,7 +12215,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12303,7 +12303,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -12366,7 +12366,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12435,7 +12435,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -12498,7 +12498,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12584,7 +12584,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -12647,7 +12647,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12716,7 +12716,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -12779,7 +12779,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12915,7 +12915,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += 20){
+                    for(i = 0; N_block - i >= 10; i += 10, x += 20, y += 20){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -13058,7 +13058,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -13174,7 +13174,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -13234,7 +13234,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -13299,7 +13299,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += 20){
+                    for(i = 0; N_block - i >= 10; i += 10, x += 20, y += 20){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -13392,7 +13392,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -13468,7 +13468,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -13508,7 +13508,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -13570,7 +13570,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += (incY * 20)){
+                    for(i = 0; N_block - i >= 10; i += 10, x += 20, y += (incY * 20)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -13713,7 +13713,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -13829,7 +13829,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -13889,7 +13889,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -13954,7 +13954,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += (incY * 20)){
+                    for(i = 0; N_block - i >= 10; i += 10, x += 20, y += (incY * 20)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -14047,7 +14047,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -14123,7 +14123,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += 16, y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -14163,7 +14163,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_ps(((float*)x));
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -14227,7 +14227,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += 20){
+                    for(i = 0; N_block - i >= 10; i += 10, x += (incX * 20), y += 20){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -14370,7 +14370,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -14486,7 +14486,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -14546,7 +14546,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -14611,7 +14611,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += 20){
+                    for(i = 0; N_block - i >= 10; i += 10, x += (incX * 20), y += 20){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -14704,7 +14704,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -14780,7 +14780,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += 16;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
@@ -14820,7 +14820,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -14882,7 +14882,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += (incY * 20)){
+                    for(i = 0; N_block - i >= 10; i += 10, x += (incX * 20), y += (incY * 20)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -15025,7 +15025,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -15141,7 +15141,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -15201,7 +15201,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -15266,7 +15266,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += (incY * 20)){
+                    for(i = 0; N_block - i >= 10; i += 10, x += (incX * 20), y += (incY * 20)){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -15359,7 +15359,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_8, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -15435,7 +15435,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                       i += 8, x += (incX * 16), y += (incY * 16);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
@@ -15475,7 +15475,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -15592,7 +15592,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -15664,7 +15664,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -15762,7 +15762,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -15834,7 +15834,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -15934,7 +15934,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16006,7 +16006,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16104,7 +16104,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16176,7 +16176,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16316,7 +16316,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16398,7 +16398,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16478,7 +16478,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16560,7 +16560,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16642,7 +16642,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16724,7 +16724,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16804,7 +16804,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16886,7 +16886,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 2ad2c4f..4743399 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -153,7 +153,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -204,7 +204,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -232,7 +232,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -248,7 +248,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -269,7 +269,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -320,7 +320,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -348,7 +348,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -364,7 +364,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -402,7 +402,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -453,7 +453,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -481,7 +481,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -497,7 +497,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -518,7 +518,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -569,7 +569,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -597,7 +597,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -613,7 +613,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -687,7 +687,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -760,7 +760,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_6 = _mm256_add_ps(x_6, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -804,7 +804,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -828,7 +828,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -857,7 +857,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -930,7 +930,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_6 = _mm256_add_ps(x_6, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -974,7 +974,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -998,7 +998,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -1044,7 +1044,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1117,7 +1117,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_6 = _mm256_add_ps(x_6, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1161,7 +1161,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -1185,7 +1185,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -1214,7 +1214,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1287,7 +1287,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_6 = _mm256_add_ps(x_6, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -1331,7 +1331,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -1355,7 +1355,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -1439,7 +1439,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1554,7 +1554,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_7 = _mm256_add_ps(x_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1614,7 +1614,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -1646,7 +1646,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -1683,7 +1683,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1798,7 +1798,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_7 = _mm256_add_ps(x_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -1858,7 +1858,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -1890,7 +1890,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -1944,7 +1944,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2059,7 +2059,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_7 = _mm256_add_ps(x_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2119,7 +2119,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -2151,7 +2151,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -2188,7 +2188,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2303,7 +2303,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_7 = _mm256_add_ps(x_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2363,7 +2363,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -2395,7 +2395,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -2488,7 +2488,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2575,7 +2575,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2635,7 +2635,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -2667,7 +2667,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     s_0 = s_buffer[0];
@@ -2704,7 +2704,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2761,7 +2761,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
                     x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -2801,7 +2801,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_ps(((float*)x));
                     x_1 = _mm256_loadu_ps(((float*)x) + 8);
 
@@ -2823,7 +2823,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_ps(((float*)x));
 
                     for(j = 0; j < fold - 1; j++){
@@ -2867,7 +2867,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -2954,7 +2954,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -3014,7 +3014,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -3046,7 +3046,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     s_0 = s_buffer[0];
@@ -3083,7 +3083,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -3140,7 +3140,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
                     x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
@@ -3180,7 +3180,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
 
@@ -3202,7 +3202,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -3291,7 +3291,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -3342,7 +3342,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -3370,7 +3370,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -3386,7 +3386,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -3407,7 +3407,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -3458,7 +3458,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -3486,7 +3486,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -3502,7 +3502,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -3540,7 +3540,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -3591,7 +3591,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -3619,7 +3619,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -3635,7 +3635,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -3656,7 +3656,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -3707,7 +3707,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -3735,7 +3735,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -3751,7 +3751,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -3825,7 +3825,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -3908,7 +3908,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -3952,7 +3952,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -3976,7 +3976,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -4005,7 +4005,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -4088,7 +4088,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -4132,7 +4132,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -4156,7 +4156,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -4202,7 +4202,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -4285,7 +4285,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -4329,7 +4329,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -4353,7 +4353,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -4382,7 +4382,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -4465,7 +4465,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -4509,7 +4509,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -4533,7 +4533,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -4623,7 +4623,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -4738,7 +4738,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -4798,7 +4798,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -4830,7 +4830,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -4867,7 +4867,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -4982,7 +4982,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
                     x_2 = _mm_loadu_ps(((float*)x) + 8);
@@ -5042,7 +5042,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -5074,7 +5074,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     q_0 = s_0_0;
@@ -5128,7 +5128,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -5243,7 +5243,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -5303,7 +5303,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -5335,7 +5335,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -5372,7 +5372,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -5487,7 +5487,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
                     x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
@@ -5547,7 +5547,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -5579,7 +5579,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
@@ -5680,7 +5680,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -5709,7 +5709,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     s_0 = s_buffer[0];
@@ -5748,7 +5748,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_loadu_ps(((float*)x));
                     x_1 = _mm_loadu_ps(((float*)x) + 4);
 
@@ -5767,7 +5767,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_ps(((float*)x));
 
                     for(j = 0; j < fold - 1; j++){
@@ -5811,7 +5811,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -5840,7 +5840,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     s_0 = s_buffer[0];
@@ -5879,7 +5879,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                     x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
 
@@ -5898,7 +5898,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5994,7 +5994,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6030,7 +6030,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6092,7 +6092,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6128,7 +6128,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6217,7 +6217,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6259,7 +6259,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6313,7 +6313,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6355,7 +6355,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
diff --git a/src/binnedBLAS/damax.ccog b/src/binnedBLAS/damax.ccog
index 3b31eda..a2dd76a 100644
--- a/src/binnedBLAS/damax.ccog
+++ b/src/binnedBLAS/damax.ccog
@@ -68,7 +68,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
 
     if(incX == 1){
 
-      for(i = 0; i + 32 <= N; i += 32, X += 32){
+      for(i = 0; N - i >= 32; i += 32, X += 32){
         X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
         X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -86,7 +86,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm256_max_pd(m_0, X_6);
         m_0 = _mm256_max_pd(m_0, X_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
         X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -97,14 +97,14 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm256_max_pd(m_0, X_3);
         i += 16, X += 16;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         m_0 = _mm256_max_pd(m_0, X_1);
         i += 8, X += 8;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         i += 4, X += 4;
@@ -116,7 +116,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, X += (incX * 32)){
+      for(i = 0; N - i >= 32; i += 32, X += (incX * 32)){
         X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
         X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -134,7 +134,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm256_max_pd(m_0, X_6);
         m_0 = _mm256_max_pd(m_0, X_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
         X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -145,14 +145,14 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm256_max_pd(m_0, X_3);
         i += 16, X += (incX * 16);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         m_0 = _mm256_max_pd(m_0, X_1);
         i += 8, X += (incX * 8);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         i += 4, X += (incX * 4);
@@ -189,7 +189,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
 
     if(incX == 1){
 
-      for(i = 0; i + 12 <= N; i += 12, X += 12){
+      for(i = 0; N - i >= 12; i += 12, X += 12){
         X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
         X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -203,7 +203,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm_max_pd(m_0, X_4);
         m_0 = _mm_max_pd(m_0, X_5);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
         X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -214,14 +214,14 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm_max_pd(m_0, X_3);
         i += 8, X += 8;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         m_0 = _mm_max_pd(m_0, X_1);
         i += 4, X += 4;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         i += 2, X += 2;
@@ -233,7 +233,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
       }
     }else{
 
-      for(i = 0; i + 12 <= N; i += 12, X += (incX * 12)){
+      for(i = 0; N - i >= 12; i += 12, X += (incX * 12)){
         X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
         X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -247,7 +247,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm_max_pd(m_0, X_4);
         m_0 = _mm_max_pd(m_0, X_5);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
         X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -258,14 +258,14 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
         m_0 = _mm_max_pd(m_0, X_3);
         i += 8, X += (incX * 8);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         m_0 = _mm_max_pd(m_0, X_1);
         i += 4, X += (incX * 4);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         i += 2, X += (incX * 2);
@@ -289,13 +289,13 @@ double binnedBLAS_damax(const int N, const double *X, const int incX_){
 
     if(incX == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, X += 1){
+      for(i = 0; N - i >= 1; i += 1, X += 1){
         X_0 = fabs(X[0]);
         m_0 = (m_0 > X_0? m_0: X_0);
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX){
+      for(i = 0; N - i >= 1; i += 1, X += incX){
         X_0 = fabs(X[0]);
         m_0 = (m_0 > X_0? m_0: X_0);
       }
diff --git a/src/binnedBLAS/damaxm.ccog b/src/binnedBLAS/damaxm.ccog
index 9b6e9f4..2bd92e5 100644
--- a/src/binnedBLAS/damaxm.ccog
+++ b/src/binnedBLAS/damaxm.ccog
@@ -72,7 +72,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 28 <= N; i += 28, X += 28, Y += 28){
+      for(i = 0; N - i >= 28; i += 28, X += 28, Y += 28){
         X_0 = _mm256_loadu_pd(X);
         X_1 = _mm256_loadu_pd(X + 4);
         X_2 = _mm256_loadu_pd(X + 8);
@@ -102,7 +102,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm256_max_pd(m_0, X_5);
         m_0 = _mm256_max_pd(m_0, X_6);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_loadu_pd(X);
         X_1 = _mm256_loadu_pd(X + 4);
         X_2 = _mm256_loadu_pd(X + 8);
@@ -121,7 +121,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm256_max_pd(m_0, X_3);
         i += 16, X += 16, Y += 16;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_loadu_pd(X);
         X_1 = _mm256_loadu_pd(X + 4);
         Y_0 = _mm256_loadu_pd(Y);
@@ -132,7 +132,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm256_max_pd(m_0, X_1);
         i += 8, X += 8, Y += 8;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm256_loadu_pd(X);
         Y_0 = _mm256_loadu_pd(Y);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
@@ -148,7 +148,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
       }
     }else{
 
-      for(i = 0; i + 28 <= N; i += 28, X += (incX * 28), Y += (incY * 28)){
+      for(i = 0; N - i >= 28; i += 28, X += (incX * 28), Y += (incY * 28)){
         X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
         X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -178,7 +178,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm256_max_pd(m_0, X_5);
         m_0 = _mm256_max_pd(m_0, X_6);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
         X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -197,7 +197,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm256_max_pd(m_0, X_3);
         i += 16, X += (incX * 16), Y += (incY * 16);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
         Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -208,7 +208,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm256_max_pd(m_0, X_1);
         i += 8, X += (incX * 8), Y += (incY * 8);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
@@ -250,7 +250,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 8 <= N; i += 8, X += 8, Y += 8){
+      for(i = 0; N - i >= 8; i += 8, X += 8, Y += 8){
         X_0 = _mm_loadu_pd(X);
         X_1 = _mm_loadu_pd(X + 2);
         X_2 = _mm_loadu_pd(X + 4);
@@ -268,7 +268,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm_max_pd(m_0, X_2);
         m_0 = _mm_max_pd(m_0, X_3);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_loadu_pd(X);
         X_1 = _mm_loadu_pd(X + 2);
         Y_0 = _mm_loadu_pd(Y);
@@ -279,7 +279,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm_max_pd(m_0, X_1);
         i += 4, X += 4, Y += 4;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         X_0 = _mm_loadu_pd(X);
         Y_0 = _mm_loadu_pd(Y);
         X_0 = _mm_and_pd(_mm_mul_pd(X_0, Y_0), abs_mask_tmp);
@@ -295,7 +295,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
       }
     }else{
 
-      for(i = 0; i + 8 <= N; i += 8, X += (incX * 8), Y += (incY * 8)){
+      for(i = 0; N - i >= 8; i += 8, X += (incX * 8), Y += (incY * 8)){
         X_0 = _mm_set_pd(X[incX], X[0]);
         X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
         X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -313,7 +313,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm_max_pd(m_0, X_2);
         m_0 = _mm_max_pd(m_0, X_3);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_set_pd(X[incX], X[0]);
         X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
         Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -324,7 +324,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
         m_0 = _mm_max_pd(m_0, X_1);
         i += 4, X += (incX * 4), Y += (incY * 4);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         X_0 = _mm_set_pd(X[incX], X[0]);
         Y_0 = _mm_set_pd(Y[incY], Y[0]);
         X_0 = _mm_and_pd(_mm_mul_pd(X_0, Y_0), abs_mask_tmp);
@@ -353,7 +353,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, X += 1, Y += 1){
+      for(i = 0; N - i >= 1; i += 1, X += 1, Y += 1){
         X_0 = X[0];
         Y_0 = Y[0];
         X_0 = fabs((X_0 * Y_0));
@@ -361,7 +361,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX_, const do
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX, Y += incY){
+      for(i = 0; N - i >= 1; i += 1, X += incX, Y += incY){
         X_0 = X[0];
         Y_0 = Y[0];
         X_0 = fabs((X_0 * Y_0));
diff --git a/src/binnedBLAS/dmdasum.ccog b/src/binnedBLAS/dmdasum.ccog
index 1da51a7..8f91fa7 100644
--- a/src/binnedBLAS/dmdasum.ccog
+++ b/src/binnedBLAS/dmdasum.ccog
@@ -130,7 +130,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -205,7 +205,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -257,7 +257,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -285,7 +285,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
 
@@ -301,7 +301,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -322,7 +322,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -397,7 +397,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -449,7 +449,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -477,7 +477,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
 
@@ -493,7 +493,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -518,7 +518,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -593,7 +593,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -645,7 +645,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -673,7 +673,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -689,7 +689,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -710,7 +710,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -785,7 +785,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -837,7 +837,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -865,7 +865,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -881,7 +881,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -939,7 +939,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -1022,7 +1022,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -1066,7 +1066,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
 
@@ -1090,7 +1090,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1119,7 +1119,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -1202,7 +1202,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -1246,7 +1246,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
 
@@ -1270,7 +1270,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1303,7 +1303,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -1386,7 +1386,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -1430,7 +1430,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -1454,7 +1454,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1483,7 +1483,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -1566,7 +1566,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -1610,7 +1610,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -1634,7 +1634,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1707,7 +1707,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -1766,7 +1766,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
 
@@ -1798,7 +1798,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1835,7 +1835,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_loadu_pd(X + 8), abs_mask_tmp);
@@ -1894,7 +1894,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_loadu_pd(X + 4), abs_mask_tmp);
 
@@ -1926,7 +1926,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1967,7 +1967,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -2026,7 +2026,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -2058,7 +2058,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2095,7 +2095,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -2154,7 +2154,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -2186,7 +2186,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2261,7 +2261,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += 4){
+                  for(i = 0; N_block - i >= 4; i += 4, X += 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -2297,7 +2297,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += 4){
+                  for(i = 0; N_block - i >= 4; i += 4, X += 4){
                     X_0 = _mm256_and_pd(_mm256_loadu_pd(X), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2327,7 +2327,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
+                  for(i = 0; N_block - i >= 4; i += 4, X += (incX * 4)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -2363,7 +2363,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
+                  for(i = 0; N_block - i >= 4; i += 4, X += (incX * 4)){
                     X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2445,7 +2445,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -2496,7 +2496,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -2524,7 +2524,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -2540,7 +2540,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2561,7 +2561,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -2612,7 +2612,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -2640,7 +2640,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -2656,7 +2656,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2681,7 +2681,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -2732,7 +2732,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -2760,7 +2760,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -2776,7 +2776,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2797,7 +2797,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -2848,7 +2848,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -2876,7 +2876,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -2892,7 +2892,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2954,7 +2954,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 6 <= N_block; i += 6, X += 6){
+                  for(i = 0; N_block - i >= 6; i += 6, X += 6){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -2987,7 +2987,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -3011,7 +3011,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3040,7 +3040,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, X += 6){
+                  for(i = 0; N_block - i >= 6; i += 6, X += 6){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -3073,7 +3073,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -3097,7 +3097,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3130,7 +3130,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
+                  for(i = 0; N_block - i >= 6; i += 6, X += (incX * 6)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -3163,7 +3163,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -3187,7 +3187,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3216,7 +3216,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
+                  for(i = 0; N_block - i >= 6; i += 6, X += (incX * 6)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -3249,7 +3249,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -3273,7 +3273,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3340,7 +3340,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -3567,7 +3567,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -3683,7 +3683,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -3743,7 +3743,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -3775,7 +3775,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3812,7 +3812,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -4039,7 +4039,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -4155,7 +4155,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -4215,7 +4215,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -4247,7 +4247,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4288,7 +4288,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -4515,7 +4515,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -4631,7 +4631,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -4691,7 +4691,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -4723,7 +4723,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4760,7 +4760,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -4987,7 +4987,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -5103,7 +5103,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -5163,7 +5163,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -5195,7 +5195,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5278,7 +5278,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -5331,7 +5331,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -5361,7 +5361,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -5398,7 +5398,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_loadu_pd(X + 4), abs_mask_tmp);
@@ -5431,7 +5431,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_loadu_pd(X + 2), abs_mask_tmp);
 
@@ -5451,7 +5451,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_loadu_pd(X), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5482,7 +5482,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -5535,7 +5535,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -5565,7 +5565,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -5602,7 +5602,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
                     X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
@@ -5635,7 +5635,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
 
@@ -5655,7 +5655,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5726,7 +5726,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabs(X[0]);
 
                     q_0 = s_0_0;
@@ -5746,7 +5746,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabs(X[0]);
 
                     q_0 = s_0_0;
@@ -5770,7 +5770,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabs(X[0]);
 
                     q_0 = s_0_0;
@@ -5790,7 +5790,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabs(X[0]);
 
                     q_0 = s_0_0;
@@ -5836,7 +5836,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabs(X[0]);
 
                     s_0 = s_buffer[0];
@@ -5860,7 +5860,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabs(X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5881,7 +5881,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabs(X[0]);
 
                     s_0 = s_buffer[0];
@@ -5905,7 +5905,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabs(X[0]);
 
                     for(j = 0; j < fold - 1; j++){
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 31ed67d..0d089b4 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -129,7 +129,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -164,7 +164,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -184,7 +184,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -209,7 +209,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -244,7 +244,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -264,7 +264,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -293,7 +293,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -328,7 +328,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -348,7 +348,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -373,7 +373,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -408,7 +408,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -428,7 +428,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -459,7 +459,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -494,7 +494,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -514,7 +514,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -539,7 +539,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -574,7 +574,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -594,7 +594,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -623,7 +623,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -658,7 +658,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -678,7 +678,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -703,7 +703,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -738,7 +738,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -758,7 +758,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -823,7 +823,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -874,7 +874,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -902,7 +902,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -935,7 +935,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -986,7 +986,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -1014,7 +1014,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1051,7 +1051,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -1102,7 +1102,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1130,7 +1130,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1163,7 +1163,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -1214,7 +1214,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1242,7 +1242,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1281,7 +1281,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1332,7 +1332,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -1360,7 +1360,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1393,7 +1393,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1444,7 +1444,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -1472,7 +1472,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1509,7 +1509,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1560,7 +1560,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1588,7 +1588,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1621,7 +1621,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1672,7 +1672,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1700,7 +1700,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1780,7 +1780,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -1847,7 +1847,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -1883,7 +1883,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1924,7 +1924,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -1991,7 +1991,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -2027,7 +2027,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2072,7 +2072,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -2139,7 +2139,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2175,7 +2175,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2216,7 +2216,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -2283,7 +2283,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2319,7 +2319,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2366,7 +2366,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -2433,7 +2433,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -2469,7 +2469,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2510,7 +2510,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -2577,7 +2577,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -2613,7 +2613,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2658,7 +2658,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -2725,7 +2725,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2761,7 +2761,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2802,7 +2802,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -2869,7 +2869,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2905,7 +2905,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2995,7 +2995,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3118,7 +3118,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3182,7 +3182,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -3216,7 +3216,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -3257,7 +3257,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3340,7 +3340,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3384,7 +3384,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -3408,7 +3408,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -3443,7 +3443,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3566,7 +3566,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3630,7 +3630,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3664,7 +3664,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -3705,7 +3705,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3788,7 +3788,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3832,7 +3832,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3856,7 +3856,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_loadu_pd(X);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -3893,7 +3893,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4016,7 +4016,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4080,7 +4080,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -4114,7 +4114,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -4155,7 +4155,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4238,7 +4238,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4282,7 +4282,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
@@ -4306,7 +4306,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -4341,7 +4341,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4464,7 +4464,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4528,7 +4528,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4562,7 +4562,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -4603,7 +4603,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4686,7 +4686,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4730,7 +4730,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4754,7 +4754,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -4837,7 +4837,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += 24){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -4936,7 +4936,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5004,7 +5004,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5040,7 +5040,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -5060,7 +5060,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -5085,7 +5085,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += 24){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5184,7 +5184,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5252,7 +5252,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5288,7 +5288,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -5308,7 +5308,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -5337,7 +5337,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += (incY * 24)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5436,7 +5436,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5504,7 +5504,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5540,7 +5540,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -5560,7 +5560,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -5585,7 +5585,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += (incY * 24)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5684,7 +5684,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5752,7 +5752,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5788,7 +5788,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -5808,7 +5808,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -5839,7 +5839,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += 24){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -5938,7 +5938,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6006,7 +6006,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6042,7 +6042,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -6062,7 +6062,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -6087,7 +6087,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += 24){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6186,7 +6186,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6254,7 +6254,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6290,7 +6290,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -6310,7 +6310,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -6339,7 +6339,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += (incY * 24)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6438,7 +6438,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6506,7 +6506,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6542,7 +6542,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -6562,7 +6562,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -6587,7 +6587,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += (incY * 24)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6686,7 +6686,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_10, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6754,7 +6754,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -6790,7 +6790,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -6810,7 +6810,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -6879,7 +6879,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -6978,7 +6978,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7030,7 +7030,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -7058,7 +7058,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -7091,7 +7091,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7190,7 +7190,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7242,7 +7242,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -7270,7 +7270,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -7307,7 +7307,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7406,7 +7406,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7458,7 +7458,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -7486,7 +7486,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -7519,7 +7519,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7618,7 +7618,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7670,7 +7670,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -7698,7 +7698,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -7737,7 +7737,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -7836,7 +7836,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -7888,7 +7888,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -7916,7 +7916,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -7949,7 +7949,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -8048,7 +8048,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -8100,7 +8100,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -8128,7 +8128,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -8165,7 +8165,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -8264,7 +8264,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -8316,7 +8316,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -8344,7 +8344,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -8377,7 +8377,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -8476,7 +8476,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_6, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -8528,7 +8528,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -8556,7 +8556,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -8636,7 +8636,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += 12){
+                    for(i = 0; N_block - i >= 12; i += 12, X += 12, Y += 12){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -8735,7 +8735,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -8803,7 +8803,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -8839,7 +8839,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -8880,7 +8880,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += 12){
+                    for(i = 0; N_block - i >= 12; i += 12, X += 12, Y += 12){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -8979,7 +8979,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -9047,7 +9047,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -9083,7 +9083,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -9128,7 +9128,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += (incY * 12)){
+                    for(i = 0; N_block - i >= 12; i += 12, X += 12, Y += (incY * 12)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -9227,7 +9227,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -9295,7 +9295,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -9331,7 +9331,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -9372,7 +9372,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += (incY * 12)){
+                    for(i = 0; N_block - i >= 12; i += 12, X += 12, Y += (incY * 12)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -9471,7 +9471,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -9539,7 +9539,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -9575,7 +9575,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -9622,7 +9622,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += 12){
+                    for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12), Y += 12){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -9721,7 +9721,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -9789,7 +9789,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -9825,7 +9825,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -9866,7 +9866,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += 12){
+                    for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12), Y += 12){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -9965,7 +9965,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -10033,7 +10033,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -10069,7 +10069,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -10114,7 +10114,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += (incY * 12)){
+                    for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12), Y += (incY * 12)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -10213,7 +10213,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -10281,7 +10281,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -10317,7 +10317,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -10358,7 +10358,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += (incY * 12)){
+                    for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12), Y += (incY * 12)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -10457,7 +10457,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -10525,7 +10525,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -10561,7 +10561,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -10651,7 +10651,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -10712,7 +10712,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -10746,7 +10746,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -10787,7 +10787,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += 8){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -10828,7 +10828,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_loadu_pd(Y);
@@ -10852,7 +10852,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -10887,7 +10887,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += (incY * 8)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -10948,7 +10948,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -10982,7 +10982,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11023,7 +11023,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += (incY * 8)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -11064,7 +11064,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -11088,7 +11088,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += 4, Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_loadu_pd(X);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11125,7 +11125,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -11186,7 +11186,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -11220,7 +11220,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11261,7 +11261,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += 8){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -11302,7 +11302,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
@@ -11326,7 +11326,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += 4;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11361,7 +11361,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += (incY * 8)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -11422,7 +11422,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -11456,7 +11456,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11497,7 +11497,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += (incY * 8)){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -11538,7 +11538,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
@@ -11562,7 +11562,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                       i += 4, X += (incX * 4), Y += (incY * 4);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       X_0 = _mm_set_pd(X[incX], X[0]);
                       Y_0 = _mm_set_pd(Y[incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11640,7 +11640,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11662,7 +11662,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11688,7 +11688,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11710,7 +11710,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11738,7 +11738,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11760,7 +11760,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11786,7 +11786,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11808,7 +11808,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11859,7 +11859,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11885,7 +11885,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11908,7 +11908,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11934,7 +11934,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11959,7 +11959,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11985,7 +11985,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -12008,7 +12008,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -12034,7 +12034,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
diff --git a/src/binnedBLAS/dmdssq.ccog b/src/binnedBLAS/dmdssq.ccog
index 95a0e00..b86e0cf 100644
--- a/src/binnedBLAS/dmdssq.ccog
+++ b/src/binnedBLAS/dmdssq.ccog
@@ -138,7 +138,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 24 <= N_block; i += 24, X += 24){
+                  for(i = 0; N_block - i >= 24; i += 24, X += 24){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_loadu_pd(X + 8), scale_mask_inv);
@@ -183,7 +183,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm256_add_pd(_mm256_add_pd(X_5, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_loadu_pd(X + 8), scale_mask_inv);
@@ -215,7 +215,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -233,7 +233,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -256,7 +256,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, X += 24){
+                  for(i = 0; N_block - i >= 24; i += 24, X += 24){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_loadu_pd(X + 8), scale_mask_inv);
@@ -301,7 +301,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm256_add_pd(X_5, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_loadu_pd(X + 8), scale_mask_inv);
@@ -333,7 +333,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -351,7 +351,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -378,7 +378,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
+                  for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -423,7 +423,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm256_add_pd(_mm256_add_pd(X_5, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -455,7 +455,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -473,7 +473,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -496,7 +496,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
+                  for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -541,7 +541,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm256_add_pd(X_5, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -573,7 +573,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -591,7 +591,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -647,7 +647,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_loadu_pd(X + 8), scale_mask_inv);
@@ -694,7 +694,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -720,7 +720,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -751,7 +751,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_loadu_pd(X + 8), scale_mask_inv);
@@ -798,7 +798,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -824,7 +824,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -859,7 +859,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -906,7 +906,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -932,7 +932,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -963,7 +963,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -1010,7 +1010,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -1036,7 +1036,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1117,7 +1117,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -1150,7 +1150,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1189,7 +1189,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_loadu_pd(X + 4), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -1222,7 +1222,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1265,7 +1265,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -1298,7 +1298,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1337,7 +1337,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
@@ -1370,7 +1370,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1447,7 +1447,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += 4){
+                  for(i = 0; N_block - i >= 4; i += 4, X += 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1485,7 +1485,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += 4){
+                  for(i = 0; N_block - i >= 4; i += 4, X += 4){
                     X_0 = _mm256_mul_pd(_mm256_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1517,7 +1517,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
+                  for(i = 0; N_block - i >= 4; i += 4, X += (incX * 4)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1555,7 +1555,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
+                  for(i = 0; N_block - i >= 4; i += 4, X += (incX * 4)){
                     X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
@@ -1631,7 +1631,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += 4){
+                  for(i = 0; N_block - i >= 4; i += 4, X += 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -1648,7 +1648,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -1671,7 +1671,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += 4){
+                  for(i = 0; N_block - i >= 4; i += 4, X += 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -1688,7 +1688,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -1715,7 +1715,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
+                  for(i = 0; N_block - i >= 4; i += 4, X += (incX * 4)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -1732,7 +1732,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -1755,7 +1755,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
+                  for(i = 0; N_block - i >= 4; i += 4, X += (incX * 4)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -1772,7 +1772,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -1832,7 +1832,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 6 <= N_block; i += 6, X += 6){
+                  for(i = 0; N_block - i >= 6; i += 6, X += 6){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -1868,7 +1868,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -1894,7 +1894,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -1925,7 +1925,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, X += 6){
+                  for(i = 0; N_block - i >= 6; i += 6, X += 6){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -1961,7 +1961,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -1987,7 +1987,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -2022,7 +2022,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
+                  for(i = 0; N_block - i >= 6; i += 6, X += (incX * 6)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -2058,7 +2058,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -2084,7 +2084,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -2115,7 +2115,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
+                  for(i = 0; N_block - i >= 6; i += 6, X += (incX * 6)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -2151,7 +2151,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_2 = _mm_add_pd(X_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -2177,7 +2177,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -2246,7 +2246,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += 12){
+                  for(i = 0; N_block - i >= 12; i += 12, X += 12){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -2339,7 +2339,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm_add_pd(X_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -2403,7 +2403,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -2437,7 +2437,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -2476,7 +2476,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += 12){
+                  for(i = 0; N_block - i >= 12; i += 12, X += 12){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -2569,7 +2569,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm_add_pd(X_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -2633,7 +2633,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -2667,7 +2667,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -2710,7 +2710,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
+                  for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -2803,7 +2803,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm_add_pd(X_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -2867,7 +2867,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -2901,7 +2901,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -2940,7 +2940,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
+                  for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -3033,7 +3033,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_5 = _mm_add_pd(X_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -3097,7 +3097,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -3131,7 +3131,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -3208,7 +3208,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += 28){
+                  for(i = 0; N_block - i >= 28; i += 28, X += 28){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -3407,7 +3407,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -3523,7 +3523,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -3583,7 +3583,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -3615,7 +3615,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -3654,7 +3654,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += 28){
+                  for(i = 0; N_block - i >= 28; i += 28, X += 28){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -3783,7 +3783,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -3859,7 +3859,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_loadu_pd(X + 4), scale_mask_inv);
@@ -3899,7 +3899,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_loadu_pd(X + 2), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -3921,7 +3921,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_loadu_pd(X), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -3954,7 +3954,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
+                  for(i = 0; N_block - i >= 28; i += 28, X += (incX * 28)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -4153,7 +4153,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -4269,7 +4269,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -4329,7 +4329,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -4361,7 +4361,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -4400,7 +4400,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
+                  for(i = 0; N_block - i >= 28; i += 28, X += (incX * 28)){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -4529,7 +4529,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -4605,7 +4605,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
@@ -4645,7 +4645,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
@@ -4667,7 +4667,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
@@ -4739,7 +4739,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4760,7 +4760,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4785,7 +4785,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4806,7 +4806,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4853,7 +4853,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4878,7 +4878,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4900,7 +4900,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4925,7 +4925,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index 9d09b43..6acdce4 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -123,7 +123,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -174,7 +174,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -202,7 +202,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -218,7 +218,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -239,7 +239,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -290,7 +290,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -318,7 +318,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -334,7 +334,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -359,7 +359,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -410,7 +410,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -438,7 +438,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -454,7 +454,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -475,7 +475,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -526,7 +526,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -554,7 +554,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -570,7 +570,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -628,7 +628,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -671,7 +671,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -695,7 +695,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -724,7 +724,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -767,7 +767,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -791,7 +791,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -824,7 +824,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -867,7 +867,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -891,7 +891,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -920,7 +920,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -963,7 +963,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -987,7 +987,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -1060,7 +1060,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -1119,7 +1119,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -1151,7 +1151,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -1188,7 +1188,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -1247,7 +1247,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -1279,7 +1279,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -1320,7 +1320,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1379,7 +1379,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -1411,7 +1411,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -1448,7 +1448,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1507,7 +1507,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -1539,7 +1539,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -1622,7 +1622,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -1681,7 +1681,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -1713,7 +1713,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     s_0 = s_buffer[0];
@@ -1750,7 +1750,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
                     X_2 = _mm256_loadu_pd(X + 8);
@@ -1789,7 +1789,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_pd(X);
                     X_1 = _mm256_loadu_pd(X + 4);
 
@@ -1811,7 +1811,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_loadu_pd(X);
 
                     for(j = 0; j < fold - 1; j++){
@@ -1842,7 +1842,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -1901,7 +1901,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -1933,7 +1933,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     s_0 = s_buffer[0];
@@ -1970,7 +1970,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -2009,7 +2009,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -2031,7 +2031,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2105,7 +2105,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 24 <= N_block; i += 24, X += 24){
+                  for(i = 0; N_block - i >= 24; i += 24, X += 24){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2180,7 +2180,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2232,7 +2232,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2260,7 +2260,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -2276,7 +2276,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -2297,7 +2297,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, X += 24){
+                  for(i = 0; N_block - i >= 24; i += 24, X += 24){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2372,7 +2372,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2424,7 +2424,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2452,7 +2452,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -2468,7 +2468,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -2493,7 +2493,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
+                  for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -2568,7 +2568,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -2620,7 +2620,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -2648,7 +2648,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -2664,7 +2664,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -2685,7 +2685,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
+                  for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -2760,7 +2760,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_10, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -2812,7 +2812,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -2840,7 +2840,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -2856,7 +2856,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -2914,7 +2914,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += 12){
+                  for(i = 0; N_block - i >= 12; i += 12, X += 12){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -2977,7 +2977,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -3021,7 +3021,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -3045,7 +3045,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -3074,7 +3074,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += 12){
+                  for(i = 0; N_block - i >= 12; i += 12, X += 12){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -3137,7 +3137,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -3181,7 +3181,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -3205,7 +3205,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -3238,7 +3238,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
+                  for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -3301,7 +3301,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -3345,7 +3345,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -3369,7 +3369,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -3398,7 +3398,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
+                  for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -3461,7 +3461,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -3505,7 +3505,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -3529,7 +3529,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -3602,7 +3602,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -3829,7 +3829,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -3945,7 +3945,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -4005,7 +4005,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -4037,7 +4037,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -4074,7 +4074,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -4301,7 +4301,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -4417,7 +4417,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -4477,7 +4477,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -4509,7 +4509,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     q_0 = s_0_0;
@@ -4550,7 +4550,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -4777,7 +4777,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -4893,7 +4893,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -4953,7 +4953,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -4985,7 +4985,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -5022,7 +5022,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -5249,7 +5249,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -5365,7 +5365,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -5425,7 +5425,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -5457,7 +5457,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -5540,7 +5540,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -5593,7 +5593,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -5623,7 +5623,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     s_0 = s_buffer[0];
@@ -5660,7 +5660,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
                     X_2 = _mm_loadu_pd(X + 4);
@@ -5693,7 +5693,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_pd(X);
                     X_1 = _mm_loadu_pd(X + 2);
 
@@ -5713,7 +5713,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += 4;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_loadu_pd(X);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5744,7 +5744,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -5797,7 +5797,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -5827,7 +5827,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     s_0 = s_buffer[0];
@@ -5864,7 +5864,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
                     X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
@@ -5897,7 +5897,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_pd(X[incX], X[0]);
                     X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
 
@@ -5917,7 +5917,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
                     i += 4, X += (incX * 4);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     X_0 = _mm_set_pd(X[incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5988,7 +5988,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -6008,7 +6008,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -6032,7 +6032,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -6052,7 +6052,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -6098,7 +6098,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     s_0 = s_buffer[0];
@@ -6122,7 +6122,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     for(j = 0; j < fold - 1; j++){
@@ -6143,7 +6143,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     s_0 = s_buffer[0];
@@ -6167,7 +6167,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     for(j = 0; j < fold - 1; j++){
diff --git a/src/binnedBLAS/dmzasum.ccog b/src/binnedBLAS/dmzasum.ccog
index 2e67f54..607e669 100644
--- a/src/binnedBLAS/dmzasum.ccog
+++ b/src/binnedBLAS/dmzasum.ccog
@@ -153,7 +153,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -228,7 +228,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -280,7 +280,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -308,7 +308,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -324,7 +324,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -345,7 +345,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -420,7 +420,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -472,7 +472,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -500,7 +500,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -516,7 +516,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -554,7 +554,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -629,7 +629,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -681,7 +681,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -709,7 +709,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -725,7 +725,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -746,7 +746,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -821,7 +821,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -873,7 +873,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -901,7 +901,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -917,7 +917,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -991,7 +991,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -1074,7 +1074,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -1118,7 +1118,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -1142,7 +1142,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1171,7 +1171,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -1254,7 +1254,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -1298,7 +1298,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -1322,7 +1322,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1368,7 +1368,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -1451,7 +1451,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -1495,7 +1495,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -1519,7 +1519,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1548,7 +1548,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -1631,7 +1631,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -1675,7 +1675,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -1699,7 +1699,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1789,7 +1789,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -1904,7 +1904,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -1964,7 +1964,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -1996,7 +1996,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2033,7 +2033,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -2148,7 +2148,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -2208,7 +2208,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -2240,7 +2240,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2294,7 +2294,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -2409,7 +2409,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -2469,7 +2469,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -2501,7 +2501,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2538,7 +2538,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -2653,7 +2653,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -2713,7 +2713,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -2745,7 +2745,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2846,7 +2846,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -3031,7 +3031,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -3139,7 +3139,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -3195,7 +3195,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -3225,7 +3225,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -3264,7 +3264,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -3379,7 +3379,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -3447,7 +3447,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -3483,7 +3483,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
 
@@ -3503,7 +3503,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -3547,7 +3547,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -3732,7 +3732,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -3840,7 +3840,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -3896,7 +3896,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -3926,7 +3926,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -3965,7 +3965,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4080,7 +4080,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4148,7 +4148,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4184,7 +4184,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -4204,7 +4204,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -4304,7 +4304,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -4475,7 +4475,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_26, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_27, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -4575,7 +4575,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_15, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -4627,7 +4627,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -4655,7 +4655,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -4671,7 +4671,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4682,7 +4682,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -4853,7 +4853,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_26, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_27, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -4953,7 +4953,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_15, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -5005,7 +5005,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -5033,7 +5033,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -5049,7 +5049,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5077,7 +5077,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5248,7 +5248,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_26, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_27, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5348,7 +5348,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_15, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5400,7 +5400,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5428,7 +5428,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -5444,7 +5444,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5455,7 +5455,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5626,7 +5626,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_26, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_27, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5726,7 +5726,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_15, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5778,7 +5778,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -5806,7 +5806,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -5822,7 +5822,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5888,7 +5888,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 12 <= N_block; i += 12, x += 24){
+                  for(i = 0; N_block - i >= 12; i += 12, x += 24){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -6011,7 +6011,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_10, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -6095,7 +6095,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -6139,7 +6139,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -6163,7 +6163,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -6178,7 +6178,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, x += 24){
+                  for(i = 0; N_block - i >= 12; i += 12, x += 24){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -6301,7 +6301,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_10, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -6385,7 +6385,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -6429,7 +6429,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -6453,7 +6453,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -6485,7 +6485,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
+                  for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -6608,7 +6608,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_10, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -6692,7 +6692,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -6736,7 +6736,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -6760,7 +6760,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -6775,7 +6775,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
+                  for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -6898,7 +6898,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_10, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -6982,7 +6982,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -7026,7 +7026,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -7050,7 +7050,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -7123,7 +7123,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -7350,7 +7350,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_15, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -7466,7 +7466,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -7526,7 +7526,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -7558,7 +7558,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -7577,7 +7577,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -7804,7 +7804,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_15, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -7920,7 +7920,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -7980,7 +7980,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -8012,7 +8012,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -8048,7 +8048,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -8275,7 +8275,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_15, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -8391,7 +8391,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -8451,7 +8451,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -8483,7 +8483,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -8502,7 +8502,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -8729,7 +8729,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_14, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_15, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -8845,7 +8845,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -8905,7 +8905,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -8937,7 +8937,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -9016,7 +9016,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -9069,7 +9069,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -9101,7 +9101,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -9123,7 +9123,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -9156,7 +9156,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
 
@@ -9176,7 +9176,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -9207,7 +9207,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -9260,7 +9260,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -9292,7 +9292,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -9314,7 +9314,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
                     x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -9347,7 +9347,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_pd(s_buffer[((j * 4) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
                     x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
 
@@ -9367,7 +9367,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -9451,7 +9451,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9487,7 +9487,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9549,7 +9549,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9585,7 +9585,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9674,7 +9674,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9716,7 +9716,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9770,7 +9770,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9812,7 +9812,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
diff --git a/src/binnedBLAS/dmzssq.ccog b/src/binnedBLAS/dmzssq.ccog
index 79d3c5c..bb27cb9 100644
--- a/src/binnedBLAS/dmzssq.ccog
+++ b/src/binnedBLAS/dmzssq.ccog
@@ -160,7 +160,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 12 <= N_block; i += 12, x += 24){
+                  for(i = 0; N_block - i >= 12; i += 12, x += 24){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 8), scale_mask_inv);
@@ -205,7 +205,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm256_add_pd(_mm256_add_pd(x_5, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 8), scale_mask_inv);
@@ -237,7 +237,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -255,7 +255,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -278,7 +278,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, x += 24){
+                  for(i = 0; N_block - i >= 12; i += 12, x += 24){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 8), scale_mask_inv);
@@ -323,7 +323,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm256_add_pd(x_5, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 8), scale_mask_inv);
@@ -355,7 +355,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -373,7 +373,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -413,7 +413,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
+                  for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
@@ -458,7 +458,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm256_add_pd(_mm256_add_pd(x_5, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
@@ -490,7 +490,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -508,7 +508,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -531,7 +531,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
+                  for(i = 0; N_block - i >= 12; i += 12, x += (incX * 24)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
@@ -576,7 +576,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm256_add_pd(x_5, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
@@ -608,7 +608,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -626,7 +626,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -698,7 +698,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += 16){
+                  for(i = 0; N_block - i >= 8; i += 8, x += 16){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 8), scale_mask_inv);
@@ -745,7 +745,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -771,7 +771,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -802,7 +802,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += 16){
+                  for(i = 0; N_block - i >= 8; i += 8, x += 16){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 8), scale_mask_inv);
@@ -849,7 +849,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -875,7 +875,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -923,7 +923,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
+                  for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
@@ -970,7 +970,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -996,7 +996,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1027,7 +1027,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
+                  for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
@@ -1074,7 +1074,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_2 = _mm256_add_pd(s_2_2, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -1100,7 +1100,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1198,7 +1198,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -1231,7 +1231,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_1 = _mm256_add_pd(x_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1270,7 +1270,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x) + 4), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -1303,7 +1303,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_1 = _mm256_add_pd(x_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1359,7 +1359,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -1392,7 +1392,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_1 = _mm256_add_pd(x_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1431,7 +1431,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
@@ -1464,7 +1464,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_1 = _mm256_add_pd(x_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1559,7 +1559,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += 4){
+                  for(i = 0; N_block - i >= 2; i += 2, x += 4){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1597,7 +1597,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += 4){
+                  for(i = 0; N_block - i >= 2; i += 2, x += 4){
                     x_0 = _mm256_mul_pd(_mm256_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1642,7 +1642,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1680,7 +1680,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4)){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
@@ -1771,7 +1771,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += 4){
+                  for(i = 0; N_block - i >= 2; i += 2, x += 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -1788,7 +1788,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -1800,7 +1800,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += 4){
+                  for(i = 0; N_block - i >= 2; i += 2, x += 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -1817,7 +1817,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -1846,7 +1846,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -1863,7 +1863,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -1875,7 +1875,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -1892,7 +1892,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -1955,7 +1955,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 3 <= N_block; i += 3, x += 6){
+                  for(i = 0; N_block - i >= 3; i += 3, x += 6){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -1991,7 +1991,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_2 = _mm_add_pd(x_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2017,7 +2017,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2033,7 +2033,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 3 <= N_block; i += 3, x += 6){
+                  for(i = 0; N_block - i >= 3; i += 3, x += 6){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -2069,7 +2069,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_2 = _mm_add_pd(x_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2095,7 +2095,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2128,7 +2128,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6)){
+                  for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -2164,7 +2164,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_2 = _mm_add_pd(x_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2190,7 +2190,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2206,7 +2206,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6)){
+                  for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -2242,7 +2242,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_2 = _mm_add_pd(x_2, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2268,7 +2268,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2336,7 +2336,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += 12){
+                  for(i = 0; N_block - i >= 6; i += 6, x += 12){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -2429,7 +2429,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm_add_pd(x_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -2493,7 +2493,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2527,7 +2527,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2547,7 +2547,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += 12){
+                  for(i = 0; N_block - i >= 6; i += 6, x += 12){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -2640,7 +2640,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm_add_pd(x_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -2704,7 +2704,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2738,7 +2738,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2775,7 +2775,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -2868,7 +2868,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm_add_pd(x_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -2932,7 +2932,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -2966,7 +2966,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -2986,7 +2986,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -3079,7 +3079,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_5 = _mm_add_pd(x_5, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -3143,7 +3143,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -3177,7 +3177,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -3249,7 +3249,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 14 <= N_block; i += 14, x += 28){
+                  for(i = 0; N_block - i >= 14; i += 14, x += 28){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -3448,7 +3448,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -3564,7 +3564,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -3624,7 +3624,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -3656,7 +3656,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -3677,7 +3677,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 14 <= N_block; i += 14, x += 28){
+                  for(i = 0; N_block - i >= 14; i += 14, x += 28){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -3806,7 +3806,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -3882,7 +3882,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 4), scale_mask_inv);
@@ -3922,7 +3922,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + 2), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -3944,7 +3944,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -3976,7 +3976,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 14 <= N_block; i += 14, x += (incX * 28)){
+                  for(i = 0; N_block - i >= 14; i += 14, x += (incX * 28)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -4175,7 +4175,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -4291,7 +4291,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -4351,7 +4351,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -4383,7 +4383,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -4404,7 +4404,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 14 <= N_block; i += 14, x += (incX * 28)){
+                  for(i = 0; N_block - i >= 14; i += 14, x += (incX * 28)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -4533,7 +4533,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_12, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_13, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -4609,7 +4609,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_7, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
@@ -4649,7 +4649,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
@@ -4671,7 +4671,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
 
@@ -4755,7 +4755,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -4793,7 +4793,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -4857,7 +4857,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -4895,7 +4895,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -4986,7 +4986,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5030,7 +5030,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5086,7 +5086,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5130,7 +5130,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
diff --git a/src/binnedBLAS/samax.ccog b/src/binnedBLAS/samax.ccog
index f39543b..8574d31 100644
--- a/src/binnedBLAS/samax.ccog
+++ b/src/binnedBLAS/samax.ccog
@@ -68,7 +68,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
 
     if(incX == 1){
 
-      for(i = 0; i + 64 <= N; i += 64, X += 64){
+      for(i = 0; N - i >= 64; i += 64, X += 64){
         X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
         X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -86,7 +86,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm256_max_ps(m_0, X_6);
         m_0 = _mm256_max_ps(m_0, X_7);
       }
-      if(i + 32 <= N){
+      if(N - i >= 32){
         X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
         X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -97,14 +97,14 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm256_max_ps(m_0, X_3);
         i += 32, X += 32;
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         m_0 = _mm256_max_ps(m_0, X_1);
         i += 16, X += 16;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         i += 8, X += 8;
@@ -116,7 +116,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
       }
     }else{
 
-      for(i = 0; i + 64 <= N; i += 64, X += (incX * 64)){
+      for(i = 0; N - i >= 64; i += 64, X += (incX * 64)){
         X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
         X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -134,7 +134,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm256_max_ps(m_0, X_6);
         m_0 = _mm256_max_ps(m_0, X_7);
       }
-      if(i + 32 <= N){
+      if(N - i >= 32){
         X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
         X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -145,14 +145,14 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm256_max_ps(m_0, X_3);
         i += 32, X += (incX * 32);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         m_0 = _mm256_max_ps(m_0, X_1);
         i += 16, X += (incX * 16);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         i += 8, X += (incX * 8);
@@ -193,7 +193,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
 
     if(incX == 1){
 
-      for(i = 0; i + 32 <= N; i += 32, X += 32){
+      for(i = 0; N - i >= 32; i += 32, X += 32){
         X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
         X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -211,7 +211,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm_max_ps(m_0, X_6);
         m_0 = _mm_max_ps(m_0, X_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
         X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -222,14 +222,14 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm_max_ps(m_0, X_3);
         i += 16, X += 16;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         m_0 = _mm_max_ps(m_0, X_1);
         i += 8, X += 8;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         i += 4, X += 4;
@@ -241,7 +241,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, X += (incX * 32)){
+      for(i = 0; N - i >= 32; i += 32, X += (incX * 32)){
         X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
         X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -259,7 +259,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm_max_ps(m_0, X_6);
         m_0 = _mm_max_ps(m_0, X_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
         X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -270,14 +270,14 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
         m_0 = _mm_max_ps(m_0, X_3);
         i += 16, X += (incX * 16);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         m_0 = _mm_max_ps(m_0, X_1);
         i += 8, X += (incX * 8);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         i += 4, X += (incX * 4);
@@ -303,13 +303,13 @@ float binnedBLAS_samax(const int N, const float *X, const int incX_){
 
     if(incX == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, X += 1){
+      for(i = 0; N - i >= 1; i += 1, X += 1){
         X_0 = fabsf(X[0]);
         m_0 = (m_0 > X_0? m_0: X_0);
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX){
+      for(i = 0; N - i >= 1; i += 1, X += incX){
         X_0 = fabsf(X[0]);
         m_0 = (m_0 > X_0? m_0: X_0);
       }
diff --git a/src/binnedBLAS/samaxm.ccog b/src/binnedBLAS/samaxm.ccog
index 3d0c786..07deb87 100644
--- a/src/binnedBLAS/samaxm.ccog
+++ b/src/binnedBLAS/samaxm.ccog
@@ -72,7 +72,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 64 <= N; i += 64, X += 64, Y += 64){
+      for(i = 0; N - i >= 64; i += 64, X += 64, Y += 64){
         X_0 = _mm256_loadu_ps(X);
         X_1 = _mm256_loadu_ps(X + 8);
         X_2 = _mm256_loadu_ps(X + 16);
@@ -106,7 +106,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm256_max_ps(m_0, X_6);
         m_0 = _mm256_max_ps(m_0, X_7);
       }
-      if(i + 32 <= N){
+      if(N - i >= 32){
         X_0 = _mm256_loadu_ps(X);
         X_1 = _mm256_loadu_ps(X + 8);
         X_2 = _mm256_loadu_ps(X + 16);
@@ -125,7 +125,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm256_max_ps(m_0, X_3);
         i += 32, X += 32, Y += 32;
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_loadu_ps(X);
         X_1 = _mm256_loadu_ps(X + 8);
         Y_0 = _mm256_loadu_ps(Y);
@@ -136,7 +136,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm256_max_ps(m_0, X_1);
         i += 16, X += 16, Y += 16;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_loadu_ps(X);
         Y_0 = _mm256_loadu_ps(Y);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
@@ -152,7 +152,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
       }
     }else{
 
-      for(i = 0; i + 64 <= N; i += 64, X += (incX * 64), Y += (incY * 64)){
+      for(i = 0; N - i >= 64; i += 64, X += (incX * 64), Y += (incY * 64)){
         X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
         X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -186,7 +186,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm256_max_ps(m_0, X_6);
         m_0 = _mm256_max_ps(m_0, X_7);
       }
-      if(i + 32 <= N){
+      if(N - i >= 32){
         X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
         X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -205,7 +205,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm256_max_ps(m_0, X_3);
         i += 32, X += (incX * 32), Y += (incY * 32);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
         Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -216,7 +216,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm256_max_ps(m_0, X_1);
         i += 16, X += (incX * 16), Y += (incY * 16);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
@@ -262,7 +262,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 32 <= N; i += 32, X += 32, Y += 32){
+      for(i = 0; N - i >= 32; i += 32, X += 32, Y += 32){
         X_0 = _mm_loadu_ps(X);
         X_1 = _mm_loadu_ps(X + 4);
         X_2 = _mm_loadu_ps(X + 8);
@@ -296,7 +296,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm_max_ps(m_0, X_6);
         m_0 = _mm_max_ps(m_0, X_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm_loadu_ps(X);
         X_1 = _mm_loadu_ps(X + 4);
         X_2 = _mm_loadu_ps(X + 8);
@@ -315,7 +315,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm_max_ps(m_0, X_3);
         i += 16, X += 16, Y += 16;
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm_loadu_ps(X);
         X_1 = _mm_loadu_ps(X + 4);
         Y_0 = _mm_loadu_ps(Y);
@@ -326,7 +326,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm_max_ps(m_0, X_1);
         i += 8, X += 8, Y += 8;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_loadu_ps(X);
         Y_0 = _mm_loadu_ps(Y);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
@@ -342,7 +342,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, X += (incX * 32), Y += (incY * 32)){
+      for(i = 0; N - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
         X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
         X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -376,7 +376,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm_max_ps(m_0, X_6);
         m_0 = _mm_max_ps(m_0, X_7);
       }
-      if(i + 16 <= N){
+      if(N - i >= 16){
         X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
         X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -395,7 +395,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm_max_ps(m_0, X_3);
         i += 16, X += (incX * 16), Y += (incY * 16);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
         Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -406,7 +406,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
         m_0 = _mm_max_ps(m_0, X_1);
         i += 8, X += (incX * 8), Y += (incY * 8);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
         Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
@@ -437,7 +437,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, X += 1, Y += 1){
+      for(i = 0; N - i >= 1; i += 1, X += 1, Y += 1){
         X_0 = X[0];
         Y_0 = Y[0];
         X_0 = fabsf((X_0 * Y_0));
@@ -445,7 +445,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX_, const floa
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX, Y += incY){
+      for(i = 0; N - i >= 1; i += 1, X += incX, Y += incY){
         X_0 = X[0];
         Y_0 = Y[0];
         X_0 = fabsf((X_0 * Y_0));
diff --git a/src/binnedBLAS/smcasum.ccog b/src/binnedBLAS/smcasum.ccog
index 0809ad7..dd25862 100644
--- a/src/binnedBLAS/smcasum.ccog
+++ b/src/binnedBLAS/smcasum.ccog
@@ -153,7 +153,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -192,7 +192,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -220,7 +220,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -236,7 +236,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -257,7 +257,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -296,7 +296,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -324,7 +324,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -340,7 +340,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -378,7 +378,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -417,7 +417,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -445,7 +445,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -461,7 +461,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -482,7 +482,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -521,7 +521,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -549,7 +549,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -565,7 +565,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -639,7 +639,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -702,7 +702,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -746,7 +746,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -770,7 +770,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -799,7 +799,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -862,7 +862,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -906,7 +906,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -930,7 +930,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -976,7 +976,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -1039,7 +1039,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -1083,7 +1083,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -1107,7 +1107,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1136,7 +1136,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -1199,7 +1199,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -1243,7 +1243,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -1267,7 +1267,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1357,7 +1357,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -1444,7 +1444,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_5 = _mm256_add_ps(x_5, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -1504,7 +1504,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -1536,7 +1536,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1573,7 +1573,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -1660,7 +1660,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_5 = _mm256_add_ps(x_5, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -1720,7 +1720,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -1752,7 +1752,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1806,7 +1806,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -1893,7 +1893,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_5 = _mm256_add_ps(x_5, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -1953,7 +1953,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -1985,7 +1985,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2022,7 +2022,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -2109,7 +2109,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_5 = _mm256_add_ps(x_5, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -2169,7 +2169,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -2201,7 +2201,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2294,7 +2294,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -2409,7 +2409,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -2469,7 +2469,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -2501,7 +2501,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -2538,7 +2538,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -2613,7 +2613,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 16), abs_mask_tmp);
@@ -2653,7 +2653,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_loadu_ps(((float*)x) + 8), abs_mask_tmp);
 
@@ -2675,7 +2675,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2719,7 +2719,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -2834,7 +2834,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -2894,7 +2894,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -2926,7 +2926,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -2963,7 +2963,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -3038,7 +3038,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
                     x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
@@ -3078,7 +3078,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
 
@@ -3100,7 +3100,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -3198,7 +3198,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += 16){
+                  for(i = 0; N_block - i >= 8; i += 8, x += 16){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -3225,7 +3225,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -3241,7 +3241,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3262,7 +3262,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += 16){
+                  for(i = 0; N_block - i >= 8; i += 8, x += 16){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -3289,7 +3289,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -3305,7 +3305,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3343,7 +3343,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
+                  for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -3370,7 +3370,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -3386,7 +3386,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3407,7 +3407,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
+                  for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -3434,7 +3434,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -3450,7 +3450,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3524,7 +3524,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -3667,7 +3667,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -3751,7 +3751,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -3795,7 +3795,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -3819,7 +3819,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3848,7 +3848,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += 56){
+                  for(i = 0; N_block - i >= 28; i += 28, x += 56){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -3991,7 +3991,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -4075,7 +4075,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -4119,7 +4119,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -4143,7 +4143,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4189,7 +4189,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4332,7 +4332,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4416,7 +4416,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4460,7 +4460,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -4484,7 +4484,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4513,7 +4513,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; N_block - i >= 28; i += 28, x += (incX * 56)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4656,7 +4656,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_13, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4740,7 +4740,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -4784,7 +4784,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -4808,7 +4808,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4898,7 +4898,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += 16){
+                  for(i = 0; N_block - i >= 8; i += 8, x += 16){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -4957,7 +4957,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -4989,7 +4989,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5026,7 +5026,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += 16){
+                  for(i = 0; N_block - i >= 8; i += 8, x += 16){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 8), abs_mask_tmp);
@@ -5085,7 +5085,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -5117,7 +5117,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5171,7 +5171,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
+                  for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -5230,7 +5230,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -5262,7 +5262,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5299,7 +5299,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
+                  for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
                     x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
@@ -5358,7 +5358,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -5390,7 +5390,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5483,7 +5483,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -5512,7 +5512,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -5551,7 +5551,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_loadu_ps(((float*)x) + 4), abs_mask_tmp);
 
@@ -5570,7 +5570,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_loadu_ps(((float*)x)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5614,7 +5614,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -5643,7 +5643,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -5682,7 +5682,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
                     x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
 
@@ -5701,7 +5701,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5797,7 +5797,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -5833,7 +5833,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -5895,7 +5895,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -5931,7 +5931,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -6020,7 +6020,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -6062,7 +6062,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -6116,7 +6116,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -6158,7 +6158,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
diff --git a/src/binnedBLAS/smcssq.ccog b/src/binnedBLAS/smcssq.ccog
index a5df68f..89f9de9 100644
--- a/src/binnedBLAS/smcssq.ccog
+++ b/src/binnedBLAS/smcssq.ccog
@@ -165,7 +165,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 16), scale_mask_inv);
@@ -228,7 +228,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -262,7 +262,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -301,7 +301,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 16), scale_mask_inv);
@@ -364,7 +364,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -398,7 +398,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -454,7 +454,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
@@ -517,7 +517,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -551,7 +551,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -590,7 +590,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
@@ -653,7 +653,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -687,7 +687,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -790,7 +790,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 16), scale_mask_inv);
@@ -853,7 +853,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -887,7 +887,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -926,7 +926,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 16), scale_mask_inv);
@@ -969,7 +969,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x) + 8), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -993,7 +993,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -1039,7 +1039,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
@@ -1102,7 +1102,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -1136,7 +1136,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -1175,7 +1175,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
@@ -1218,7 +1218,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
@@ -1242,7 +1242,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
@@ -1334,7 +1334,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -1393,7 +1393,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -1425,7 +1425,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -1443,7 +1443,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -1466,7 +1466,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -1525,7 +1525,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -1557,7 +1557,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -1575,7 +1575,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -1615,7 +1615,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -1674,7 +1674,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -1706,7 +1706,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -1724,7 +1724,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -1747,7 +1747,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -1806,7 +1806,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -1838,7 +1838,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -1856,7 +1856,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -1932,7 +1932,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -2111,7 +2111,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_14, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -2203,7 +2203,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -2251,7 +2251,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -2277,7 +2277,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -2308,7 +2308,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += 64){
+                  for(i = 0; N_block - i >= 32; i += 32, x += 64){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -2487,7 +2487,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_14, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -2579,7 +2579,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -2627,7 +2627,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -2653,7 +2653,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -2701,7 +2701,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -2880,7 +2880,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_14, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -2972,7 +2972,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -3020,7 +3020,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -3046,7 +3046,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -3077,7 +3077,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
+                  for(i = 0; N_block - i >= 32; i += 32, x += (incX * 64)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -3256,7 +3256,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_14, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_15, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -3348,7 +3348,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -3396,7 +3396,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -3422,7 +3422,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -3514,7 +3514,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 10 <= N_block; i += 10, x += 20){
+                  for(i = 0; N_block - i >= 10; i += 10, x += 20){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -3592,7 +3592,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_4 = _mm_add_ps(x_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_4, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -3656,7 +3656,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -3690,7 +3690,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -3729,7 +3729,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 10 <= N_block; i += 10, x += 20){
+                  for(i = 0; N_block - i >= 10; i += 10, x += 20){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -3807,7 +3807,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_4 = _mm_add_ps(x_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_4, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -3871,7 +3871,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -3905,7 +3905,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -3961,7 +3961,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20)){
+                  for(i = 0; N_block - i >= 10; i += 10, x += (incX * 20)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -4039,7 +4039,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_4 = _mm_add_ps(x_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_4, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -4103,7 +4103,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -4137,7 +4137,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -4176,7 +4176,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20)){
+                  for(i = 0; N_block - i >= 10; i += 10, x += (incX * 20)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -4254,7 +4254,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_4 = _mm_add_ps(x_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_4, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -4318,7 +4318,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -4352,7 +4352,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -4447,7 +4447,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -4562,7 +4562,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -4622,7 +4622,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -4654,7 +4654,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -4695,7 +4695,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -4770,7 +4770,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 8), scale_mask_inv);
@@ -4810,7 +4810,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_loadu_ps(((float*)x) + 4), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -4832,7 +4832,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_loadu_ps(((float*)x)), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -4878,7 +4878,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -4993,7 +4993,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -5053,7 +5053,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -5085,7 +5085,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -5126,7 +5126,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -5201,7 +5201,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
@@ -5241,7 +5241,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
@@ -5263,7 +5263,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
@@ -5362,7 +5362,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5400,7 +5400,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5464,7 +5464,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5502,7 +5502,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5593,7 +5593,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5637,7 +5637,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5693,7 +5693,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5737,7 +5737,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
diff --git a/src/binnedBLAS/smsasum.ccog b/src/binnedBLAS/smsasum.ccog
index 599be56..b40821b 100644
--- a/src/binnedBLAS/smsasum.ccog
+++ b/src/binnedBLAS/smsasum.ccog
@@ -130,7 +130,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -181,7 +181,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -209,7 +209,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -225,7 +225,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -246,7 +246,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -297,7 +297,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -325,7 +325,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -341,7 +341,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -366,7 +366,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -417,7 +417,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -445,7 +445,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -461,7 +461,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -482,7 +482,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -533,7 +533,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -561,7 +561,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -577,7 +577,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -635,7 +635,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -698,7 +698,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -742,7 +742,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -766,7 +766,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -795,7 +795,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -858,7 +858,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -902,7 +902,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -926,7 +926,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -959,7 +959,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -1022,7 +1022,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -1066,7 +1066,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -1090,7 +1090,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1119,7 +1119,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -1182,7 +1182,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -1226,7 +1226,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -1250,7 +1250,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1323,7 +1323,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 56 <= N_block; i += 56, X += 56){
+                  for(i = 0; N_block - i >= 56; i += 56, X += 56){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -1424,7 +1424,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_6 = _mm256_add_ps(X_6, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -1484,7 +1484,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -1516,7 +1516,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1553,7 +1553,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 56 <= N_block; i += 56, X += 56){
+                  for(i = 0; N_block - i >= 56; i += 56, X += 56){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -1654,7 +1654,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_6 = _mm256_add_ps(X_6, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -1714,7 +1714,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -1746,7 +1746,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -1787,7 +1787,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
+                  for(i = 0; N_block - i >= 56; i += 56, X += (incX * 56)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -1888,7 +1888,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_6 = _mm256_add_ps(X_6, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -1948,7 +1948,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -1980,7 +1980,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2017,7 +2017,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
+                  for(i = 0; N_block - i >= 56; i += 56, X += (incX * 56)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -2118,7 +2118,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_6 = _mm256_add_ps(X_6, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -2178,7 +2178,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -2210,7 +2210,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -2285,7 +2285,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -2366,7 +2366,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_4, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -2422,7 +2422,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -2452,7 +2452,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -2489,7 +2489,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -2540,7 +2540,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_4, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_loadu_ps(X + 16), abs_mask_tmp);
@@ -2576,7 +2576,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_loadu_ps(X + 8), abs_mask_tmp);
 
@@ -2596,7 +2596,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_loadu_ps(X), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2627,7 +2627,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -2708,7 +2708,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_4, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -2764,7 +2764,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -2794,7 +2794,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -2831,7 +2831,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -2882,7 +2882,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_4, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
                     X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
@@ -2918,7 +2918,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
 
@@ -2938,7 +2938,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -3023,7 +3023,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -3122,7 +3122,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_14, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_15, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -3174,7 +3174,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -3202,7 +3202,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -3218,7 +3218,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3239,7 +3239,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -3338,7 +3338,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_14, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_15, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -3390,7 +3390,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -3418,7 +3418,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -3434,7 +3434,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3459,7 +3459,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -3558,7 +3558,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_14, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_15, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -3610,7 +3610,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -3638,7 +3638,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -3654,7 +3654,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3675,7 +3675,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -3774,7 +3774,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_14, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_15, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -3826,7 +3826,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -3854,7 +3854,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -3870,7 +3870,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -3932,7 +3932,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4015,7 +4015,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4059,7 +4059,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -4083,7 +4083,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4112,7 +4112,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4195,7 +4195,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4239,7 +4239,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -4263,7 +4263,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4296,7 +4296,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -4379,7 +4379,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -4423,7 +4423,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -4447,7 +4447,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4476,7 +4476,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -4559,7 +4559,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -4603,7 +4603,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -4627,7 +4627,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4700,7 +4700,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 20 <= N_block; i += 20, X += 20){
+                  for(i = 0; N_block - i >= 20; i += 20, X += 20){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4773,7 +4773,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_4 = _mm_add_ps(X_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4833,7 +4833,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -4865,7 +4865,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -4902,7 +4902,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 20 <= N_block; i += 20, X += 20){
+                  for(i = 0; N_block - i >= 20; i += 20, X += 20){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -4975,7 +4975,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_4 = _mm_add_ps(X_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_loadu_ps(X + 8), abs_mask_tmp);
@@ -5035,7 +5035,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -5067,7 +5067,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5108,7 +5108,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 20 <= N_block; i += 20, X += (incX * 20)){
+                  for(i = 0; N_block - i >= 20; i += 20, X += (incX * 20)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -5181,7 +5181,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_4 = _mm_add_ps(X_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -5241,7 +5241,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -5273,7 +5273,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5310,7 +5310,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 20 <= N_block; i += 20, X += (incX * 20)){
+                  for(i = 0; N_block - i >= 20; i += 20, X += (incX * 20)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -5383,7 +5383,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_4 = _mm_add_ps(X_4, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
                     X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
@@ -5443,7 +5443,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -5475,7 +5475,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
@@ -5550,7 +5550,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -5579,7 +5579,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -5616,7 +5616,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += 8){
+                  for(i = 0; N_block - i >= 8; i += 8, X += 8){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_loadu_ps(X + 4), abs_mask_tmp);
 
@@ -5635,7 +5635,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_loadu_ps(X), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5666,7 +5666,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -5695,7 +5695,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
@@ -5732,7 +5732,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
+                  for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8)){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
                     X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
 
@@ -5751,7 +5751,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5820,7 +5820,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabsf(X[0]);
 
                     q_0 = s_0_0;
@@ -5840,7 +5840,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabsf(X[0]);
 
                     q_0 = s_0_0;
@@ -5864,7 +5864,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabsf(X[0]);
 
                     q_0 = s_0_0;
@@ -5884,7 +5884,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabsf(X[0]);
 
                     q_0 = s_0_0;
@@ -5930,7 +5930,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabsf(X[0]);
 
                     s_0 = s_buffer[0];
@@ -5954,7 +5954,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = fabsf(X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5975,7 +5975,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabsf(X[0]);
 
                     s_0 = s_buffer[0];
@@ -5999,7 +5999,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = fabsf(X[0]);
 
                     for(j = 0; j < fold - 1; j++){
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index a9da7b3..330af21 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -129,7 +129,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -164,7 +164,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -184,7 +184,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -209,7 +209,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -244,7 +244,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -264,7 +264,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -293,7 +293,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -328,7 +328,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -348,7 +348,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -373,7 +373,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -408,7 +408,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -428,7 +428,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -459,7 +459,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -494,7 +494,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -514,7 +514,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -539,7 +539,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -574,7 +574,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -594,7 +594,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -623,7 +623,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -658,7 +658,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -678,7 +678,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -703,7 +703,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -738,7 +738,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -758,7 +758,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -823,7 +823,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -874,7 +874,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -902,7 +902,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -935,7 +935,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -986,7 +986,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -1014,7 +1014,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1051,7 +1051,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -1102,7 +1102,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1130,7 +1130,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1163,7 +1163,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -1214,7 +1214,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1242,7 +1242,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1281,7 +1281,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1332,7 +1332,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -1360,7 +1360,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1393,7 +1393,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1444,7 +1444,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -1472,7 +1472,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1509,7 +1509,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1560,7 +1560,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1588,7 +1588,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1621,7 +1621,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1672,7 +1672,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -1700,7 +1700,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1780,7 +1780,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += 24){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -1831,7 +1831,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -1867,7 +1867,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1908,7 +1908,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += 24){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -1959,7 +1959,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -1995,7 +1995,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2040,7 +2040,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += (incY * 24)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -2091,7 +2091,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2127,7 +2127,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2168,7 +2168,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += 24, Y += (incY * 24)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -2219,7 +2219,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2255,7 +2255,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2302,7 +2302,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += 24){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2353,7 +2353,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -2389,7 +2389,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2430,7 +2430,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += 24){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2481,7 +2481,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -2517,7 +2517,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2562,7 +2562,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += (incY * 24)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2613,7 +2613,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2649,7 +2649,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2690,7 +2690,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
+                    for(i = 0; N_block - i >= 24; i += 24, X += (incX * 24), Y += (incY * 24)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2741,7 +2741,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_2 = _mm256_add_ps(X_2, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -2777,7 +2777,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2859,7 +2859,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -2922,7 +2922,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -2956,7 +2956,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2997,7 +2997,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -3040,7 +3040,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -3064,7 +3064,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3099,7 +3099,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -3162,7 +3162,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3196,7 +3196,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3237,7 +3237,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
@@ -3280,7 +3280,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3304,7 +3304,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_loadu_ps(X);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3341,7 +3341,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -3404,7 +3404,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -3438,7 +3438,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3479,7 +3479,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -3522,7 +3522,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
@@ -3546,7 +3546,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3581,7 +3581,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -3644,7 +3644,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3678,7 +3678,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3719,7 +3719,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -3762,7 +3762,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3786,7 +3786,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3869,7 +3869,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -3888,7 +3888,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -3913,7 +3913,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -3932,7 +3932,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -3961,7 +3961,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += (incY * 8)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -3980,7 +3980,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4005,7 +4005,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += 8, Y += (incY * 8)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4024,7 +4024,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4055,7 +4055,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -4074,7 +4074,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4099,7 +4099,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -4118,7 +4118,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4147,7 +4147,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += (incY * 8)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4166,7 +4166,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4191,7 +4191,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
+                    for(i = 0; N_block - i >= 8; i += 8, X += (incX * 8), Y += (incY * 8)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4210,7 +4210,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4275,7 +4275,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -4326,7 +4326,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -4354,7 +4354,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4387,7 +4387,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -4438,7 +4438,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -4466,7 +4466,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4503,7 +4503,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -4554,7 +4554,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4582,7 +4582,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4615,7 +4615,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -4666,7 +4666,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -4694,7 +4694,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4733,7 +4733,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4784,7 +4784,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -4812,7 +4812,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4845,7 +4845,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4896,7 +4896,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -4924,7 +4924,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4961,7 +4961,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -5012,7 +5012,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -5040,7 +5040,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -5073,7 +5073,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -5124,7 +5124,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_3 = _mm_add_ps(X_3, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -5152,7 +5152,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -5226,7 +5226,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5357,7 +5357,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5425,7 +5425,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -5461,7 +5461,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -5502,7 +5502,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += 32){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5633,7 +5633,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5701,7 +5701,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -5737,7 +5737,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -5782,7 +5782,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5913,7 +5913,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5981,7 +5981,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -6017,7 +6017,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -6058,7 +6058,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += 32, Y += (incY * 32)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -6189,7 +6189,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -6257,7 +6257,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += 16, Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -6293,7 +6293,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -6340,7 +6340,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -6471,7 +6471,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -6539,7 +6539,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -6575,7 +6575,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -6616,7 +6616,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += 32){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -6747,7 +6747,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -6815,7 +6815,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += 16;
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -6851,7 +6851,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -6896,7 +6896,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -7027,7 +7027,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -7095,7 +7095,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -7131,7 +7131,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -7172,7 +7172,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
+                    for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32), Y += (incY * 32)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -7303,7 +7303,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_6, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
-                    if(i + 16 <= N_block){
+                    if(N_block - i >= 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -7371,7 +7371,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
                       i += 16, X += (incX * 16), Y += (incY * 16);
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -7407,7 +7407,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -7505,7 +7505,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -7566,7 +7566,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -7600,7 +7600,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -7641,7 +7641,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += 16){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -7682,7 +7682,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_loadu_ps(Y);
@@ -7706,7 +7706,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -7741,7 +7741,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -7802,7 +7802,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -7836,7 +7836,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -7877,7 +7877,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (N_block - i), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += 16, Y += (incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -7918,7 +7918,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -7942,7 +7942,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += 8, Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_loadu_ps(X);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -7979,7 +7979,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -8040,7 +8040,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -8074,7 +8074,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -8115,7 +8115,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += 16){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -8156,7 +8156,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
@@ -8180,7 +8180,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += 8;
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -8215,7 +8215,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -8276,7 +8276,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -8310,7 +8310,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -8351,7 +8351,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X += (incX * (N_block - i)), Y += (incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
+                    for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16), Y += (incY * 16)){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -8392,7 +8392,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
-                    if(i + 8 <= N_block){
+                    if(N_block - i >= 8){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
@@ -8416,7 +8416,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                       i += 8, X += (incX * 8), Y += (incY * 8);
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                       Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -8494,7 +8494,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8516,7 +8516,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8542,7 +8542,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8564,7 +8564,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8592,7 +8592,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8614,7 +8614,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8640,7 +8640,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8662,7 +8662,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8713,7 +8713,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8739,7 +8739,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8762,7 +8762,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8788,7 +8788,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += 1, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8813,7 +8813,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8839,7 +8839,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8862,7 +8862,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8888,7 +8888,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; N_block - i >= 1; i += 1, X += incX, Y += incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
diff --git a/src/binnedBLAS/smsssq.ccog b/src/binnedBLAS/smsssq.ccog
index f0fe04b..612b8b6 100644
--- a/src/binnedBLAS/smsssq.ccog
+++ b/src/binnedBLAS/smsssq.ccog
@@ -139,7 +139,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -230,7 +230,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -278,7 +278,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -304,7 +304,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -335,7 +335,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -426,7 +426,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -474,7 +474,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -500,7 +500,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -535,7 +535,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -626,7 +626,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -674,7 +674,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -700,7 +700,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -731,7 +731,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -822,7 +822,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -870,7 +870,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -896,7 +896,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -965,7 +965,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 40 <= N_block; i += 40, X += 40){
+                  for(i = 0; N_block - i >= 40; i += 40, X += 40){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -1043,7 +1043,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_4 = _mm256_add_ps(X_4, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -1107,7 +1107,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -1141,7 +1141,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -1180,7 +1180,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 40 <= N_block; i += 40, X += 40){
+                  for(i = 0; N_block - i >= 40; i += 40, X += 40){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -1258,7 +1258,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_4 = _mm256_add_ps(X_4, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -1322,7 +1322,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -1356,7 +1356,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -1399,7 +1399,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
+                  for(i = 0; N_block - i >= 40; i += 40, X += (incX * 40)){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -1477,7 +1477,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_4 = _mm256_add_ps(X_4, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -1541,7 +1541,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -1575,7 +1575,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -1614,7 +1614,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
+                  for(i = 0; N_block - i >= 40; i += 40, X += (incX * 40)){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -1692,7 +1692,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_4 = _mm256_add_ps(X_4, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_4, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -1756,7 +1756,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -1790,7 +1790,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -1867,7 +1867,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -1990,7 +1990,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -2054,7 +2054,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -2088,7 +2088,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -2127,7 +2127,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -2210,7 +2210,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_loadu_ps(X + 16), scale_mask_inv);
@@ -2254,7 +2254,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_loadu_ps(X + 8), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -2278,7 +2278,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -2311,7 +2311,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -2434,7 +2434,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -2498,7 +2498,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -2532,7 +2532,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -2571,7 +2571,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -2654,7 +2654,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
@@ -2698,7 +2698,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
@@ -2722,7 +2722,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
@@ -2799,7 +2799,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += 28){
+                  for(i = 0; N_block - i >= 28; i += 28, X += 28){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -2851,7 +2851,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_6 = _mm_add_ps(_mm_add_ps(X_6, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -2883,7 +2883,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -2901,7 +2901,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -2924,7 +2924,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += 28){
+                  for(i = 0; N_block - i >= 28; i += 28, X += 28){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -2976,7 +2976,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_6 = _mm_add_ps(X_6, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3008,7 +3008,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -3026,7 +3026,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -3053,7 +3053,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
+                  for(i = 0; N_block - i >= 28; i += 28, X += (incX * 28)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -3105,7 +3105,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_6 = _mm_add_ps(_mm_add_ps(X_6, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -3137,7 +3137,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -3155,7 +3155,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -3178,7 +3178,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
+                  for(i = 0; N_block - i >= 28; i += 28, X += (incX * 28)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -3230,7 +3230,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_6 = _mm_add_ps(X_6, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -3262,7 +3262,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -3280,7 +3280,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -3336,7 +3336,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 56 <= N_block; i += 56, X += 56){
+                  for(i = 0; N_block - i >= 56; i += 56, X += 56){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3493,7 +3493,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_13, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3585,7 +3585,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3633,7 +3633,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -3659,7 +3659,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -3690,7 +3690,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 56 <= N_block; i += 56, X += 56){
+                  for(i = 0; N_block - i >= 56; i += 56, X += 56){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3847,7 +3847,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_13, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3939,7 +3939,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -3987,7 +3987,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -4013,7 +4013,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -4048,7 +4048,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
+                  for(i = 0; N_block - i >= 56; i += 56, X += (incX * 56)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -4205,7 +4205,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_13, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -4297,7 +4297,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -4345,7 +4345,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -4371,7 +4371,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -4402,7 +4402,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
+                  for(i = 0; N_block - i >= 56; i += 56, X += (incX * 56)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -4559,7 +4559,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_12, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_13, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -4651,7 +4651,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -4699,7 +4699,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -4725,7 +4725,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -4800,7 +4800,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += 12){
+                  for(i = 0; N_block - i >= 12; i += 12, X += 12){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -4848,7 +4848,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_2 = _mm_add_ps(X_2, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_2, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -4882,7 +4882,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -4921,7 +4921,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += 12){
+                  for(i = 0; N_block - i >= 12; i += 12, X += 12){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -4969,7 +4969,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_2 = _mm_add_ps(X_2, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_2, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -5003,7 +5003,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -5046,7 +5046,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
+                  for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -5094,7 +5094,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_2 = _mm_add_ps(X_2, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_2, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -5128,7 +5128,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -5167,7 +5167,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
+                  for(i = 0; N_block - i >= 12; i += 12, X += (incX * 12)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -5215,7 +5215,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_2 = _mm_add_ps(X_2, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_2, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -5249,7 +5249,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -5326,7 +5326,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 40 <= N_block; i += 40, X += 40){
+                  for(i = 0; N_block - i >= 40; i += 40, X += 40){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -5469,7 +5469,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_8, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -5585,7 +5585,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -5645,7 +5645,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -5677,7 +5677,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -5716,7 +5716,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 40 <= N_block; i += 40, X += 40){
+                  for(i = 0; N_block - i >= 40; i += 40, X += 40){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -5809,7 +5809,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_8, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -5885,7 +5885,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_loadu_ps(X + 8), scale_mask_inv);
@@ -5925,7 +5925,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_loadu_ps(X + 4), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -5947,7 +5947,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_loadu_ps(X), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -5980,7 +5980,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
+                  for(i = 0; N_block - i >= 40; i += 40, X += (incX * 40)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -6123,7 +6123,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_8, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -6239,7 +6239,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -6299,7 +6299,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -6331,7 +6331,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -6370,7 +6370,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
+                  for(i = 0; N_block - i >= 40; i += 40, X += (incX * 40)){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -6463,7 +6463,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_8, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -6539,7 +6539,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_7, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
@@ -6579,7 +6579,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
@@ -6601,7 +6601,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
@@ -6673,7 +6673,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6694,7 +6694,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6719,7 +6719,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6740,7 +6740,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6787,7 +6787,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6812,7 +6812,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6834,7 +6834,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6859,7 +6859,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index d7c21c6..d53e0ac 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -124,7 +124,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 80 <= N_block; i += 80, X += 80){
+                  for(i = 0; N_block - i >= 80; i += 80, X += 80){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -187,7 +187,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_8, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 64 <= N_block){
+                  if(N_block - i >= 64){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -239,7 +239,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                     i += 64, X += 64;
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -267,7 +267,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -283,7 +283,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -304,7 +304,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 80 <= N_block; i += 80, X += 80){
+                  for(i = 0; N_block - i >= 80; i += 80, X += 80){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -367,7 +367,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_8, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 64 <= N_block){
+                  if(N_block - i >= 64){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -419,7 +419,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                     i += 64, X += 64;
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -447,7 +447,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -463,7 +463,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -488,7 +488,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 80 <= N_block; i += 80, X += (incX * 80)){
+                  for(i = 0; N_block - i >= 80; i += 80, X += (incX * 80)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -551,7 +551,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_8, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 64 <= N_block){
+                  if(N_block - i >= 64){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -603,7 +603,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                     i += 64, X += (incX * 64);
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -631,7 +631,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -647,7 +647,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -668,7 +668,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 80 <= N_block; i += 80, X += (incX * 80)){
+                  for(i = 0; N_block - i >= 80; i += 80, X += (incX * 80)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -731,7 +731,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_8, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_9, blp_mask_tmp));
                   }
-                  if(i + 64 <= N_block){
+                  if(N_block - i >= 64){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -783,7 +783,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                     i += 64, X += (incX * 64);
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -811,7 +811,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -827,7 +827,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -885,7 +885,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -948,7 +948,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -992,7 +992,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -1016,7 +1016,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -1045,7 +1045,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += 48){
+                  for(i = 0; N_block - i >= 48; i += 48, X += 48){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -1108,7 +1108,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -1152,7 +1152,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -1176,7 +1176,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -1209,7 +1209,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1272,7 +1272,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1316,7 +1316,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -1340,7 +1340,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -1369,7 +1369,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
+                  for(i = 0; N_block - i >= 48; i += 48, X += (incX * 48)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1432,7 +1432,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_4, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -1476,7 +1476,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -1500,7 +1500,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -1573,7 +1573,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -1688,7 +1688,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -1748,7 +1748,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -1780,7 +1780,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -1817,7 +1817,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += 64){
+                  for(i = 0; N_block - i >= 64; i += 64, X += 64){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -1932,7 +1932,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
                     X_2 = _mm256_loadu_ps(X + 16);
@@ -1992,7 +1992,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += 32;
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -2024,7 +2024,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -2065,7 +2065,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2180,7 +2180,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2240,7 +2240,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -2272,7 +2272,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -2309,7 +2309,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
+                  for(i = 0; N_block - i >= 64; i += 64, X += (incX * 64)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2424,7 +2424,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_7 = _mm256_add_ps(X_7, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 32 <= N_block){
+                  if(N_block - i >= 32){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
                     X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
@@ -2484,7 +2484,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
                     i += 32, X += (incX * 32);
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -2516,7 +2516,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -2591,7 +2591,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -2622,7 +2622,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     s_0 = s_buffer[0];
@@ -2659,7 +2659,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm256_loadu_ps(X);
                     X_1 = _mm256_loadu_ps(X + 8);
 
@@ -2680,7 +2680,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_loadu_ps(X);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2711,7 +2711,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -2742,7 +2742,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     s_0 = s_buffer[0];
@@ -2779,7 +2779,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
 
@@ -2800,7 +2800,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2874,7 +2874,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -2901,7 +2901,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -2917,7 +2917,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -2938,7 +2938,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -2965,7 +2965,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -2981,7 +2981,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -3006,7 +3006,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -3033,7 +3033,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -3049,7 +3049,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -3070,7 +3070,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -3097,7 +3097,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -3113,7 +3113,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -3171,7 +3171,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -3254,7 +3254,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -3298,7 +3298,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -3322,7 +3322,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -3351,7 +3351,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += 32){
+                  for(i = 0; N_block - i >= 32; i += 32, X += 32){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -3434,7 +3434,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -3478,7 +3478,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -3502,7 +3502,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -3535,7 +3535,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -3618,7 +3618,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -3662,7 +3662,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -3686,7 +3686,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -3715,7 +3715,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
+                  for(i = 0; N_block - i >= 32; i += 32, X += (incX * 32)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -3798,7 +3798,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -3842,7 +3842,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -3866,7 +3866,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -3939,7 +3939,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += 28){
+                  for(i = 0; N_block - i >= 28; i += 28, X += 28){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -4040,7 +4040,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_6 = _mm_add_ps(X_6, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -4100,7 +4100,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -4132,7 +4132,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -4169,7 +4169,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += 28){
+                  for(i = 0; N_block - i >= 28; i += 28, X += 28){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -4270,7 +4270,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_6 = _mm_add_ps(X_6, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -4330,7 +4330,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += 16;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -4362,7 +4362,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     q_0 = s_0_0;
@@ -4403,7 +4403,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
+                  for(i = 0; N_block - i >= 28; i += 28, X += (incX * 28)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4504,7 +4504,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_6 = _mm_add_ps(X_6, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4564,7 +4564,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -4596,7 +4596,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -4633,7 +4633,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
+                  for(i = 0; N_block - i >= 28; i += 28, X += (incX * 28)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4734,7 +4734,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_6 = _mm_add_ps(X_6, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -4794,7 +4794,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
                     i += 16, X += (incX * 16);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -4826,7 +4826,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     q_0 = s_0_0;
@@ -4901,7 +4901,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -4954,7 +4954,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -4984,7 +4984,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     s_0 = s_buffer[0];
@@ -5021,7 +5021,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (N_block - i);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += 16){
+                  for(i = 0; N_block - i >= 16; i += 16, X += 16){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
                     X_2 = _mm_loadu_ps(X + 8);
@@ -5054,7 +5054,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_loadu_ps(X);
                     X_1 = _mm_loadu_ps(X + 4);
 
@@ -5074,7 +5074,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += 8;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_loadu_ps(X);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5105,7 +5105,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -5158,7 +5158,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -5188,7 +5188,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     s_0 = s_buffer[0];
@@ -5225,7 +5225,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X += (incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
+                  for(i = 0; N_block - i >= 16; i += 16, X += (incX * 16)){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
                     X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
@@ -5258,7 +5258,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 2)] = _mm_add_ps(s_buffer[((j * 4) + 2)], _mm_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
                     X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
 
@@ -5278,7 +5278,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                     i += 8, X += (incX * 8);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5349,7 +5349,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -5369,7 +5369,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -5393,7 +5393,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -5413,7 +5413,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -5459,7 +5459,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     s_0 = s_buffer[0];
@@ -5483,7 +5483,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += 1){
+                  for(i = 0; N_block - i >= 1; i += 1, X += 1){
                     X_0 = X[0];
 
                     for(j = 0; j < fold - 1; j++){
@@ -5504,7 +5504,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     s_0 = s_buffer[0];
@@ -5528,7 +5528,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; N_block - i >= 1; i += 1, X += incX){
                     X_0 = X[0];
 
                     for(j = 0; j < fold - 1; j++){
diff --git a/src/binnedBLAS/zamax_sub.ccog b/src/binnedBLAS/zamax_sub.ccog
index 1d2e149..c8a9da2 100644
--- a/src/binnedBLAS/zamax_sub.ccog
+++ b/src/binnedBLAS/zamax_sub.ccog
@@ -68,7 +68,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
 
     if(incX == 1){
 
-      for(i = 0; i + 16 <= N; i += 16, x += 32){
+      for(i = 0; N - i >= 16; i += 16, x += 32){
         x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
         x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -86,7 +86,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_pd(m_0, x_6);
         m_0 = _mm256_max_pd(m_0, x_7);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
         x_2 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 8), abs_mask_tmp);
@@ -97,14 +97,14 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_pd(m_0, x_3);
         i += 8, x += 16;
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm256_and_pd(_mm256_loadu_pd(((double*)x) + 4), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
         i += 4, x += 8;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm256_and_pd(_mm256_loadu_pd(((double*)x)), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         i += 2, x += 4;
@@ -116,7 +116,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
       }
     }else{
 
-      for(i = 0; i + 16 <= N; i += 16, x += (incX * 32)){
+      for(i = 0; N - i >= 16; i += 16, x += (incX * 32)){
         x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
         x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
         x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -134,7 +134,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_pd(m_0, x_6);
         m_0 = _mm256_max_pd(m_0, x_7);
       }
-      if(i + 8 <= N){
+      if(N - i >= 8){
         x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
         x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
         x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
@@ -145,14 +145,14 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm256_max_pd(m_0, x_3);
         i += 8, x += (incX * 16);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
         x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
         i += 4, x += (incX * 8);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         i += 2, x += (incX * 4);
@@ -189,7 +189,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
 
     if(incX == 1){
 
-      for(i = 0; i + 5 <= N; i += 5, x += 10){
+      for(i = 0; N - i >= 5; i += 5, x += 10){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
         x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -201,7 +201,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_pd(m_0, x_3);
         m_0 = _mm_max_pd(m_0, x_4);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
         x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 4), abs_mask_tmp);
@@ -212,21 +212,21 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_pd(m_0, x_3);
         i += 4, x += 8;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + 2), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         m_0 = _mm_max_pd(m_0, x_1);
         i += 2, x += 4;
       }
-      if(i + 1 <= N){
+      if(N - i >= 1){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         i += 1, x += 2;
       }
     }else{
 
-      for(i = 0; i + 5 <= N; i += 5, x += (incX * 10)){
+      for(i = 0; N - i >= 5; i += 5, x += (incX * 10)){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
         x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -238,7 +238,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_pd(m_0, x_3);
         m_0 = _mm_max_pd(m_0, x_4);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
         x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
@@ -249,14 +249,14 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
         m_0 = _mm_max_pd(m_0, x_3);
         i += 4, x += (incX * 8);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         m_0 = _mm_max_pd(m_0, x_1);
         i += 2, x += (incX * 4);
       }
-      if(i + 1 <= N){
+      if(N - i >= 1){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         i += 1, x += (incX * 2);
@@ -276,7 +276,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
 
     if(incX == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, x += 2){
+      for(i = 0; N - i >= 1; i += 1, x += 2){
         x_0 = fabs(((double*)x)[0]);
         x_1 = fabs(((double*)x)[1]);
         m_0 = (m_0 > x_0? m_0: x_0);
@@ -284,7 +284,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX_, void *ama
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2)){
+      for(i = 0; N - i >= 1; i += 1, x += (incX * 2)){
         x_0 = fabs(((double*)x)[0]);
         x_1 = fabs(((double*)x)[1]);
         m_0 = (m_0 > x_0? m_0: x_0);
diff --git a/src/binnedBLAS/zamaxm_sub.ccog b/src/binnedBLAS/zamaxm_sub.ccog
index 66c9336..b6f6a2d 100644
--- a/src/binnedBLAS/zamaxm_sub.ccog
+++ b/src/binnedBLAS/zamaxm_sub.ccog
@@ -73,7 +73,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 8 <= N; i += 8, x += 16, y += 16){
+      for(i = 0; N - i >= 8; i += 8, x += 16, y += 16){
         x_0 = _mm256_loadu_pd(((double*)x));
         x_1 = _mm256_loadu_pd(((double*)x) + 4);
         x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -99,7 +99,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_pd(m_0, x_6);
         m_0 = _mm256_max_pd(m_0, x_7);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_loadu_pd(((double*)x));
         x_1 = _mm256_loadu_pd(((double*)x) + 4);
         y_0 = _mm256_loadu_pd(((double*)y));
@@ -114,7 +114,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_pd(m_0, x_3);
         i += 4, x += 8, y += 8;
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm256_loadu_pd(((double*)x));
         y_0 = _mm256_loadu_pd(((double*)y));
         x_1 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), abs_mask_tmp);
@@ -134,7 +134,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
       }
     }else{
 
-      for(i = 0; i + 8 <= N; i += 8, x += (incX * 16), y += (incY * 16)){
+      for(i = 0; N - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
         x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
         x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
         x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -160,7 +160,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_pd(m_0, x_6);
         m_0 = _mm256_max_pd(m_0, x_7);
       }
-      if(i + 4 <= N){
+      if(N - i >= 4){
         x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
         x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
         y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -175,7 +175,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm256_max_pd(m_0, x_3);
         i += 4, x += (incX * 8), y += (incY * 8);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
         y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
         x_1 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), abs_mask_tmp);
@@ -221,7 +221,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 3 <= N; i += 3, x += 6, y += 6){
+      for(i = 0; N - i >= 3; i += 3, x += 6, y += 6){
         x_0 = _mm_loadu_pd(((double*)x));
         x_1 = _mm_loadu_pd(((double*)x) + 2);
         x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -241,7 +241,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_pd(m_0, x_4);
         m_0 = _mm_max_pd(m_0, x_5);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_loadu_pd(((double*)x));
         x_1 = _mm_loadu_pd(((double*)x) + 2);
         y_0 = _mm_loadu_pd(((double*)y));
@@ -256,7 +256,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_pd(m_0, x_3);
         i += 2, x += 4, y += 4;
       }
-      if(i + 1 <= N){
+      if(N - i >= 1){
         x_0 = _mm_loadu_pd(((double*)x));
         y_0 = _mm_loadu_pd(((double*)y));
         x_1 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), abs_mask_tmp);
@@ -267,7 +267,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
       }
     }else{
 
-      for(i = 0; i + 3 <= N; i += 3, x += (incX * 6), y += (incY * 6)){
+      for(i = 0; N - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
         x_0 = _mm_loadu_pd(((double*)x));
         x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
         x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -287,7 +287,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_pd(m_0, x_4);
         m_0 = _mm_max_pd(m_0, x_5);
       }
-      if(i + 2 <= N){
+      if(N - i >= 2){
         x_0 = _mm_loadu_pd(((double*)x));
         x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
         y_0 = _mm_loadu_pd(((double*)y));
@@ -302,7 +302,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
         m_0 = _mm_max_pd(m_0, x_3);
         i += 2, x += (incX * 4), y += (incY * 4);
       }
-      if(i + 1 <= N){
+      if(N - i >= 1){
         x_0 = _mm_loadu_pd(((double*)x));
         y_0 = _mm_loadu_pd(((double*)y));
         x_1 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), abs_mask_tmp);
@@ -327,7 +327,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
 
     if(incX == 1 && incY == 1){
 
-      for(i = 0; i + 1 <= N; i += 1, x += 2, y += 2){
+      for(i = 0; N - i >= 1; i += 1, x += 2, y += 2){
         x_0 = ((double*)x)[0];
         x_1 = ((double*)x)[1];
         y_0 = ((double*)y)[0];
@@ -343,7 +343,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX_, const vo
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2), y += (incY * 2)){
+      for(i = 0; N - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
         x_0 = ((double*)x)[0];
         x_1 = ((double*)x)[1];
         y_0 = ((double*)y)[0];
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 9e26296..371215e 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -172,7 +172,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += 12){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -217,7 +217,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -249,7 +249,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -286,7 +286,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += 12){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -331,7 +331,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -363,7 +363,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -417,7 +417,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += (incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -462,7 +462,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -494,7 +494,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -531,7 +531,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += (incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -576,7 +576,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -608,7 +608,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -664,7 +664,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += 12){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -709,7 +709,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -741,7 +741,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -778,7 +778,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += 12){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -823,7 +823,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -855,7 +855,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -909,7 +909,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -954,7 +954,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -986,7 +986,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1023,7 +1023,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -1068,7 +1068,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1100,7 +1100,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1193,7 +1193,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1240,7 +1240,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1293,7 +1293,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1340,7 +1340,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1410,7 +1410,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1457,7 +1457,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1510,7 +1510,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1557,7 +1557,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1629,7 +1629,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1676,7 +1676,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1729,7 +1729,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1776,7 +1776,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1846,7 +1846,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1893,7 +1893,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1946,7 +1946,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1993,7 +1993,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2110,7 +2110,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2173,7 +2173,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2242,7 +2242,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2305,7 +2305,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2391,7 +2391,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -2454,7 +2454,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2523,7 +2523,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -2586,7 +2586,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2674,7 +2674,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2737,7 +2737,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2806,7 +2806,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2869,7 +2869,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2955,7 +2955,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3018,7 +3018,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3087,7 +3087,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3150,7 +3150,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3286,7 +3286,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -3343,7 +3343,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3412,7 +3412,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -3449,7 +3449,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3511,7 +3511,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3568,7 +3568,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3637,7 +3637,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3674,7 +3674,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3738,7 +3738,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -3795,7 +3795,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3864,7 +3864,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -3901,7 +3901,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3963,7 +3963,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -4020,7 +4020,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -4089,7 +4089,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -4126,7 +4126,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -4247,7 +4247,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4292,7 +4292,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4324,7 +4324,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4343,7 +4343,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4388,7 +4388,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4420,7 +4420,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4456,7 +4456,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4501,7 +4501,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4533,7 +4533,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4552,7 +4552,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4597,7 +4597,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4629,7 +4629,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4667,7 +4667,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -4712,7 +4712,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4744,7 +4744,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4763,7 +4763,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -4808,7 +4808,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4840,7 +4840,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4876,7 +4876,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -4921,7 +4921,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -4953,7 +4953,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4972,7 +4972,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5017,7 +5017,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5049,7 +5049,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5122,7 +5122,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5191,7 +5191,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5239,7 +5239,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5266,7 +5266,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5335,7 +5335,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5383,7 +5383,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5427,7 +5427,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5496,7 +5496,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5544,7 +5544,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5571,7 +5571,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5640,7 +5640,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5688,7 +5688,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5734,7 +5734,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5803,7 +5803,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5851,7 +5851,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5878,7 +5878,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5947,7 +5947,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5995,7 +5995,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6039,7 +6039,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6108,7 +6108,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6156,7 +6156,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6183,7 +6183,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6252,7 +6252,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6300,7 +6300,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6388,7 +6388,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += 4){
+                    for(i = 0; N_block - i >= 2; i += 2, x += 4, y += 4){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6451,7 +6451,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6486,7 +6486,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += 4){
+                    for(i = 0; N_block - i >= 2; i += 2, x += 4, y += 4){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6549,7 +6549,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6601,7 +6601,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += (incY * 4)){
+                    for(i = 0; N_block - i >= 2; i += 2, x += 4, y += (incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6664,7 +6664,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6699,7 +6699,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += (incY * 4)){
+                    for(i = 0; N_block - i >= 2; i += 2, x += 4, y += (incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6762,7 +6762,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6816,7 +6816,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += 4){
+                    for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4), y += 4){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6879,7 +6879,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6914,7 +6914,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += 4){
+                    for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4), y += 4){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6977,7 +6977,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7029,7 +7029,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += (incY * 4)){
+                    for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4), y += (incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7092,7 +7092,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7127,7 +7127,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += (incY * 4)){
+                    for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4), y += (incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7190,7 +7190,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_2 = _mm_add_pd(s_3_2, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_3 = _mm_add_pd(s_3_3, _mm_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7296,7 +7296,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7405,7 +7405,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7467,7 +7467,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7506,7 +7506,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7575,7 +7575,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7613,7 +7613,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7653,7 +7653,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7762,7 +7762,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7824,7 +7824,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7863,7 +7863,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7932,7 +7932,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7970,7 +7970,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8012,7 +8012,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8121,7 +8121,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8183,7 +8183,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8222,7 +8222,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8291,7 +8291,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8329,7 +8329,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8369,7 +8369,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8478,7 +8478,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8540,7 +8540,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8579,7 +8579,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8648,7 +8648,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8686,7 +8686,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8786,7 +8786,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -8858,7 +8858,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -8956,7 +8956,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9028,7 +9028,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9128,7 +9128,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9200,7 +9200,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9298,7 +9298,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9370,7 +9370,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9510,7 +9510,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9592,7 +9592,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9672,7 +9672,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9754,7 +9754,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9836,7 +9836,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9918,7 +9918,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9998,7 +9998,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10080,7 +10080,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 3e7a635..d2bc161 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -172,7 +172,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += 12){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -217,7 +217,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -249,7 +249,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -286,7 +286,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += 12){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -331,7 +331,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -363,7 +363,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -417,7 +417,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += (incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -462,7 +462,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -494,7 +494,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -531,7 +531,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += 12, y += (incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -576,7 +576,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -608,7 +608,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -664,7 +664,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += 12){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -709,7 +709,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -741,7 +741,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -778,7 +778,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += 12){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -823,7 +823,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -855,7 +855,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -909,7 +909,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -954,7 +954,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -986,7 +986,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1023,7 +1023,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
+                    for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12), y += (incY * 12)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -1068,7 +1068,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1100,7 +1100,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1193,7 +1193,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1240,7 +1240,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1293,7 +1293,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1340,7 +1340,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1410,7 +1410,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1457,7 +1457,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1510,7 +1510,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1557,7 +1557,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1629,7 +1629,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1676,7 +1676,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1729,7 +1729,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -1776,7 +1776,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1846,7 +1846,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1893,7 +1893,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1946,7 +1946,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -1993,7 +1993,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2110,7 +2110,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2173,7 +2173,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2242,7 +2242,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2305,7 +2305,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2391,7 +2391,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -2454,7 +2454,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2523,7 +2523,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -2586,7 +2586,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2674,7 +2674,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2737,7 +2737,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2806,7 +2806,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -2869,7 +2869,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2955,7 +2955,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3018,7 +3018,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -3087,7 +3087,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3150,7 +3150,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -3286,7 +3286,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3401,7 +3401,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -3461,7 +3461,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -3526,7 +3526,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += 16){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3601,7 +3601,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -3641,7 +3641,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -3703,7 +3703,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3818,7 +3818,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -3878,7 +3878,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -3943,7 +3943,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += 16, y += (incY * 16)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -4018,7 +4018,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -4058,7 +4058,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += 8, y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -4122,7 +4122,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4237,7 +4237,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -4297,7 +4297,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -4362,7 +4362,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += 16){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4437,7 +4437,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
@@ -4477,7 +4477,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += 8;
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -4539,7 +4539,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4654,7 +4654,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -4714,7 +4714,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -4779,7 +4779,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
+                    for(i = 0; N_block - i >= 8; i += 8, x += (incX * 16), y += (incY * 16)){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4854,7 +4854,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 4 <= N_block){
+                    if(N_block - i >= 4){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
@@ -4894,7 +4894,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
                       i += 4, x += (incX * 8), y += (incY * 8);
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -5013,7 +5013,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5058,7 +5058,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5090,7 +5090,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5109,7 +5109,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5154,7 +5154,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5186,7 +5186,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5222,7 +5222,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5267,7 +5267,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5299,7 +5299,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5318,7 +5318,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5363,7 +5363,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5395,7 +5395,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5433,7 +5433,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5478,7 +5478,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5510,7 +5510,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5529,7 +5529,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5574,7 +5574,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5606,7 +5606,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5642,7 +5642,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5687,7 +5687,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5719,7 +5719,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5738,7 +5738,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5783,7 +5783,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -5815,7 +5815,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5888,7 +5888,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5957,7 +5957,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6005,7 +6005,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6032,7 +6032,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -6101,7 +6101,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6149,7 +6149,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6193,7 +6193,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -6262,7 +6262,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6310,7 +6310,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6337,7 +6337,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -6406,7 +6406,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6454,7 +6454,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6500,7 +6500,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6569,7 +6569,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6617,7 +6617,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6644,7 +6644,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6713,7 +6713,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6761,7 +6761,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6805,7 +6805,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6874,7 +6874,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -6922,7 +6922,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6949,7 +6949,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -7018,7 +7018,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7066,7 +7066,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -7154,7 +7154,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7247,7 +7247,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7311,7 +7311,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -7346,7 +7346,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7439,7 +7439,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7503,7 +7503,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -7555,7 +7555,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7648,7 +7648,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7712,7 +7712,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -7747,7 +7747,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += 6, y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -7840,7 +7840,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -7904,7 +7904,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -7958,7 +7958,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8051,7 +8051,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8115,7 +8115,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -8150,7 +8150,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8243,7 +8243,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8307,7 +8307,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -8359,7 +8359,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8452,7 +8452,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8516,7 +8516,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -8551,7 +8551,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; N_block - i >= 3; i += 3, x += (incX * 6), y += (incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -8644,7 +8644,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8708,7 +8708,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -8806,7 +8806,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -8915,7 +8915,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -8977,7 +8977,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9016,7 +9016,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += 2;
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -9085,7 +9085,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -9123,7 +9123,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9163,7 +9163,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -9272,7 +9272,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -9334,7 +9334,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9373,7 +9373,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += 2, y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += 8, y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -9442,7 +9442,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -9480,7 +9480,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += 4, y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9522,7 +9522,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -9631,7 +9631,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -9693,7 +9693,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9732,7 +9732,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -9801,7 +9801,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -9839,7 +9839,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += 4;
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9879,7 +9879,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -9988,7 +9988,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -10050,7 +10050,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -10089,7 +10089,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       i += 1, x += (incX * 2), y += (incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8), y += (incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -10158,7 +10158,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 6)] = _mm_add_pd(s_buffer[((j * 8) + 6)], _mm_or_pd(x_6, blp_mask_tmp));
                       s_buffer[((j * 8) + 7)] = _mm_add_pd(s_buffer[((j * 8) + 7)], _mm_or_pd(x_7, blp_mask_tmp));
                     }
-                    if(i + 2 <= N_block){
+                    if(N_block - i >= 2){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
@@ -10196,7 +10196,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
                       i += 2, x += (incX * 4), y += (incY * 4);
                     }
-                    if(i + 1 <= N_block){
+                    if(N_block - i >= 1){
                       x_0 = _mm_loadu_pd(((double*)x));
                       y_0 = _mm_loadu_pd(((double*)y));
                       x_1 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -10296,7 +10296,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10368,7 +10368,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10466,7 +10466,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10538,7 +10538,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10638,7 +10638,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10710,7 +10710,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10808,7 +10808,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10880,7 +10880,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11020,7 +11020,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11102,7 +11102,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11182,7 +11182,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11264,7 +11264,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += 2, y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11346,7 +11346,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11428,7 +11428,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11508,7 +11508,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11590,7 +11590,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2), y += (incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 5cbcccf..5803a5c 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -152,7 +152,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -203,7 +203,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_2 = _mm256_add_pd(s_1_2, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -231,7 +231,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -247,7 +247,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -268,7 +268,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -319,7 +319,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_2 = _mm256_add_pd(s_1_2, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -347,7 +347,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -363,7 +363,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -401,7 +401,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -452,7 +452,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_2 = _mm256_add_pd(s_1_2, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -480,7 +480,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -496,7 +496,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
@@ -517,7 +517,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -568,7 +568,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_2 = _mm256_add_pd(s_1_2, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -596,7 +596,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -612,7 +612,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
@@ -690,7 +690,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -773,7 +773,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -817,7 +817,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -841,7 +841,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -870,7 +870,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += 32){
+                  for(i = 0; N_block - i >= 16; i += 16, x += 32){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -953,7 +953,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -997,7 +997,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -1021,7 +1021,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -1067,7 +1067,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -1150,7 +1150,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -1194,7 +1194,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -1218,7 +1218,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
@@ -1247,7 +1247,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; N_block - i >= 16; i += 16, x += (incX * 32)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -1330,7 +1330,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -1374,7 +1374,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -1398,7 +1398,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
@@ -1488,7 +1488,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -1659,7 +1659,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -1775,7 +1775,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -1835,7 +1835,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -1867,7 +1867,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -1904,7 +1904,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -2075,7 +2075,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -2191,7 +2191,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -2251,7 +2251,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -2283,7 +2283,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -2337,7 +2337,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -2508,7 +2508,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -2624,7 +2624,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -2684,7 +2684,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -2716,7 +2716,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
@@ -2753,7 +2753,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -2924,7 +2924,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_10, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -3040,7 +3040,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -3100,7 +3100,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -3132,7 +3132,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
@@ -3233,7 +3233,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3386,7 +3386,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_10, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3490,7 +3490,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3544,7 +3544,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -3576,7 +3576,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     s_0 = s_buffer[0];
@@ -3619,7 +3619,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += ((N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += 48){
+                  for(i = 0; N_block - i >= 24; i += 24, x += 48){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3712,7 +3712,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_10, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3776,7 +3776,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += 32;
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
                     x_2 = _mm256_loadu_pd(((double*)x) + 8);
@@ -3810,7 +3810,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += 16;
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_loadu_pd(((double*)x));
                     x_1 = _mm256_loadu_pd(((double*)x) + 4);
 
@@ -3830,7 +3830,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_loadu_pd(((double*)x));
 
                     for(j = 0; j < fold - 1; j++){
@@ -3874,7 +3874,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4027,7 +4027,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_10, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4131,7 +4131,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4185,7 +4185,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -4217,7 +4217,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     s_0 = s_buffer[0];
@@ -4260,7 +4260,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x += (incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
+                  for(i = 0; N_block - i >= 24; i += 24, x += (incX * 48)){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4353,7 +4353,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_10, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_11, blp_mask_tmp));
                   }
-                  if(i + 16 <= N_block){
+                  if(N_block - i >= 16){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4417,7 +4417,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_7, blp_mask_tmp));
                     i += 16, x += (incX * 32);
                   }
-                  if(i + 8 <= N_block){
+                  if(N_block - i >= 8){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
                     x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
@@ -4451,7 +4451,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     i += 8, x += (incX * 16);
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                     x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
 
@@ -4471,7 +4471,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -4564,7 +4564,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4591,7 +4591,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -4607,7 +4607,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -4618,7 +4618,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += 8){
+                  for(i = 0; N_block - i >= 4; i += 4, x += 8){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4645,7 +4645,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -4661,7 +4661,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -4689,7 +4689,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -4716,7 +4716,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -4732,7 +4732,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -4743,7 +4743,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; N_block - i >= 4; i += 4, x += (incX * 8)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -4770,7 +4770,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -4786,7 +4786,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -4848,7 +4848,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += 12){
+                  for(i = 0; N_block - i >= 6; i += 6, x += 12){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4911,7 +4911,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -4955,7 +4955,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -4979,7 +4979,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -4994,7 +4994,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += 12){
+                  for(i = 0; N_block - i >= 6; i += 6, x += 12){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5057,7 +5057,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5101,7 +5101,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -5125,7 +5125,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -5157,7 +5157,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5220,7 +5220,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5264,7 +5264,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -5288,7 +5288,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -5303,7 +5303,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5366,7 +5366,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -5410,7 +5410,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -5434,7 +5434,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -5507,7 +5507,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += 12){
+                  for(i = 0; N_block - i >= 6; i += 6, x += 12){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5594,7 +5594,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5654,7 +5654,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -5686,7 +5686,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -5705,7 +5705,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += 12){
+                  for(i = 0; N_block - i >= 6; i += 6, x += 12){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5792,7 +5792,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
                     x_2 = _mm_loadu_pd(((double*)x) + 4);
@@ -5852,7 +5852,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += 8;
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -5884,7 +5884,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += 4;
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -5920,7 +5920,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6007,7 +6007,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6067,7 +6067,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -6099,7 +6099,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -6118,7 +6118,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; N_block - i >= 6; i += 6, x += (incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6205,7 +6205,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_4, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_5, blp_mask_tmp));
                   }
-                  if(i + 4 <= N_block){
+                  if(N_block - i >= 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
                     x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
@@ -6265,7 +6265,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
                     i += 4, x += (incX * 8);
                   }
-                  if(i + 2 <= N_block){
+                  if(N_block - i >= 2){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -6297,7 +6297,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
                     i += 2, x += (incX * 4);
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     q_0 = s_0_0;
@@ -6376,7 +6376,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += 4){
+                  for(i = 0; N_block - i >= 2; i += 2, x += 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -6405,7 +6405,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     s_0 = s_buffer[0];
@@ -6425,7 +6425,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += 2;
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += 4){
+                  for(i = 0; N_block - i >= 2; i += 2, x += 4){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + 2);
 
@@ -6444,7 +6444,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     for(j = 0; j < fold - 1; j++){
@@ -6475,7 +6475,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -6504,7 +6504,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     s_0 = s_buffer[0];
@@ -6524,7 +6524,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     i += 1, x += (incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; N_block - i >= 2; i += 2, x += (incX * 4)){
                     x_0 = _mm_loadu_pd(((double*)x));
                     x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
 
@@ -6543,7 +6543,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                   }
-                  if(i + 1 <= N_block){
+                  if(N_block - i >= 1){
                     x_0 = _mm_loadu_pd(((double*)x));
 
                     for(j = 0; j < fold - 1; j++){
@@ -6625,7 +6625,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6661,7 +6661,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6723,7 +6723,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6759,7 +6759,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6848,7 +6848,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6890,7 +6890,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += 2){
+                  for(i = 0; N_block - i >= 1; i += 1, x += 2){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6944,7 +6944,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6986,7 +6986,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; N_block - i >= 1; i += 1, x += (incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
diff --git a/src/gen/vectorizations.py b/src/gen/vectorizations.py
index 33adf8f..d461031 100644
--- a/src/gen/vectorizations.py
+++ b/src/gen/vectorizations.py
@@ -92,7 +92,7 @@ class Vectorization(object):
     unroll = (max_unroll // max(self.type_size, 1)) * max(self.type_size, 1)
     while(unroll >= min_unroll):
       if i == 0:
-        self.code_block.write("for({0} = 0; {0} + {1} <= {2}; {0} += {1}, {3}){{".format(i_var, max_unroll, n_var, self.data_type.data_increment(src_ptrs, src_incs, max_unroll)))
+        self.code_block.write("for({0} = 0; {2} - {0} >= {1}; {0} += {1}, {3}){{".format(i_var, max_unroll, n_var, self.data_type.data_increment(src_ptrs, src_incs, max_unroll)))
         self.code_block.indent()
         body(unroll)
         self.code_block.dedent()
@@ -106,7 +106,7 @@ class Vectorization(object):
         self.code_block.write("}")
         break
       else:
-        self.code_block.write("if({0} + {1} <= {2}){{".format(i_var, unroll, n_var))
+        self.code_block.write("if({2} - {0} >= {1}){{".format(i_var, unroll, n_var))
         self.code_block.indent()
         body(unroll)
         self.code_block.write("{0} += {1}, {2};".format(i_var, unroll, self.data_type.data_increment(src_ptrs, src_incs, unroll)))
-- 
2.43.0


From 617841ea94cd4ffbf942be2d1348193ce5731f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:54 +0000
Subject: [PATCH 23/23] fix: reported double bound does not underflow for more
 than 27 bins

---
 src/binned/dbbound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binned/dbbound.c b/src/binned/dbbound.c
index 46087e1..3998618 100644
--- a/src/binned/dbbound.c
+++ b/src/binned/dbbound.c
@@ -19,5 +19,5 @@
  * @date   31 Jul 2015
  */
 double binned_dbbound(const int fold, const int N, const double X, const double S) {
-  return MAX(MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * DBWIDTH + 1), ldexp(0.5, DBL_MAX_EXP - DBWIDTH + 1 - binned_DBMAXINDEX * DBWIDTH)) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
+  return MAX(ldexp(MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)), (1 - fold) * DBWIDTH), ldexp(0.5, DBL_MAX_EXP - DBWIDTH + 1 - binned_DBMAXINDEX * DBWIDTH)) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
 }
-- 
2.43.0

