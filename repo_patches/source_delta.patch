From d76f46811e320aa0fad367e58a081c8528c04a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 1/9] fix: pffft_new_setup no longer dereferences a failed
 allocation

---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..b594aa3 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1370,6 +1370,9 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     }
     PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup));
     int k, m;
+    if (!s) {
+        return 0;
+    }
     /* unfortunately, the fft size must be a multiple of 16 for complex FFTs
      and 32 for real FFTs -- a lot of stuff would need to be rewritten to
      handle other cases (or maybe just switch to a scalar fft, I don't know..) */
@@ -1385,6 +1388,10 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0


From 85ba014d9a7a04f406439fe313cff1328b95d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 2/9] fix: amplitude prediction no longer reads past log2Ml
 when the last frame had 56 bands

---
 src/ambe/ambe3600x2400.c | 3 +++
 src/ambe/ambe3600x2450.c | 3 +++
 src/imbe/imbe7200x4400.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..2104129 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -527,6 +527,9 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         // eq. 40
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        if (intkl[l] > 55) {
+            intkl[l] = 55; /* log2Ml has 57 entries: interpolate towards index 56, never past it */
+        }
 #ifdef AMBE_DEBUG
         fprintf(stderr, "flok%i: %f, intk%i: %i ", l, flokl[l], l, intkl[l]);
 #endif
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..9295c47 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -546,6 +546,9 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
         // eq. 40
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        if (intkl[l] > 55) {
+            intkl[l] = 55; /* log2Ml has 57 entries: interpolate towards index 56, never past it */
+        }
 #ifdef AMBE_DEBUG
         fprintf(stderr, "flok%i: %f, intk%i: %i ", l, flokl[l], l, intkl[l]);
 #endif
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..6e7633c 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -495,6 +495,9 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         // eq. 75
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        if (intkl[l] > 55) {
+            intkl[l] = 55; /* log2Ml has 57 entries: interpolate towards index 56, never past it */
+        }
 #ifdef IMBE_DEBUG
         fprintf(stderr, "flokl: %e, intkl: %i ", flokl[l], intkl[l]);
 #endif
-- 
2.43.0


From 16ff70117b8eababe0892da5e6081648dd4e26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 3/9] fix: spectral enhancement of parameters without pitch no
 longer yields NaN amplitudes

---
 src/core/mbelib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..5f31bb4 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -369,6 +369,11 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
+    /* Erasure parameters carry no pitch (w0 == 0): the spectral weights are undefined, so leave the bands alone. */
+    if (!(cur_mp->w0 > 0.0f)) {
+        return;
+    }
+
     R2m0 = (Rm0 * Rm0);
     R2m1 = (Rm1 * Rm1);
 
-- 
2.43.0


From 0b0d1b0c7016a67d9378bed55b362bffef607e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 4/9] fix: amplitude threshold saturates instead of overflowing
 int on long errored streams

---
 src/core/mbe_adaptive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..25e323a 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -7,6 +7,7 @@
  */
 
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include <stdint.h>
 #include <string.h>
@@ -248,6 +249,10 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (prevThreshold <= 0) {
         prevThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     }
+    /* The recursion below has no decay: saturate instead of overflowing after hours of errored frames. */
+    if (prevThreshold > INT_MAX - MBE_AMPLITUDE_BASE) {
+        prevThreshold = INT_MAX - MBE_AMPLITUDE_BASE;
+    }
 
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
-- 
2.43.0


From ac771cbc129faf3b85cff0f09a18ee97d7854823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 5/9] fix: AMBE 2400 single-frequency tones are no longer
 overwritten by comfort noise and a state reset

---
 src/ambe/ambe3600x2400.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 2104129..cc3198e 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -605,7 +605,7 @@ void
 mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, char* err_str, const char ambe_d[49],
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
-    int i, bad;
+    int i, bad, tone_sounded = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -646,7 +646,9 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
     else if ((bad >= 7) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
-        mbe_moveMbeParms(cur_mp, prev_mp);
+        cur_mp->repeat = 0;
+        cur_mp->repeatCount = 0;
+        tone_sounded = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -674,7 +676,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_sounded) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From 327a526f436b285aabb766147cf6acf8afd65432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 6/9] fix: an IMBE repeat of AMBE parameters keeps the IMBE
 muting threshold

---
 src/imbe/imbe7200x4400.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 6e7633c..ca07417 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -626,6 +626,7 @@ mbe_processImbe4400Dataf_withC0(float* aout_buf, const int* errs2, char* err_str
             imbe_reset_headroom_defaults(cur_mp);
         } else {
             mbe_useLastMbeParms(cur_mp, prev_mp);
+            cur_mp->mutingThreshold = MBE_MUTING_THRESHOLD_IMBE; /* the repeated parameters may be from AMBE */
             cur_mp->repeat++;
             cur_mp->repeatCount++;
         }
-- 
2.43.0


From b2e7d1686d0539e7dd75eefa6a7f34b52159a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 7/9] fix: form spectral weight products in double so loud held
 frames cannot overflow to NaN

---
 src/core/mbelib.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 5f31bb4..9dc71d8 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -272,7 +272,8 @@ mbe_initMbeParms(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhan
 void
 mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
 
-    float Rm0, Rm1, R2m0, R2m1, Wl[57];
+    float Rm0, Rm1, Wl[57];
+    double R2m0, R2m1;
     int l;
     float sum, gamma;
     const int L = cur_mp->L;
@@ -374,8 +375,9 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
         return;
     }
 
-    R2m0 = (Rm0 * Rm0);
-    R2m1 = (Rm1 * Rm1);
+    /* Rm0 cubed exceeds the range of float for loud frames held over time, so form these products in double. */
+    R2m0 = ((double)Rm0 * (double)Rm0);
+    R2m1 = ((double)Rm1 * (double)Rm1);
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
@@ -383,8 +385,8 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
         if (cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
             Wl[l] = sqrtf(cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-                                  / (cur_mp->w0 * Rm0 * (R2m0 - R2m1))));
+                    * sqrtf(sqrtf((float)(((0.96 * M_PI) * ((R2m0 + R2m1) - (2.0 * Rm0 * Rm1 * cos_w0l)))
+                                          / ((double)cur_mp->w0 * Rm0 * (R2m0 - R2m1)))));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From 400c85de97feee5983c2e55284d1b14541c93201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 8/9] fix: pre-enhancement energy stays with its parameter set
 between enhancement and synthesis

The hand-off lived in one thread-local slot keyed by address: enhancing another stream, or copying the
set, between mbe_spectralAmpEnhance() and mbe_synthesizeSpeechf() lost it and changed the local energy.
---
 src/core/mbe_adaptive.c     | 27 ++++++++++-----------------
 src/internal/mbe_adaptive.h |  2 +-
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 25e323a..da42d5c 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -24,10 +24,10 @@
 #define MBE_JAVA_RNG_INIT_SEED 0x12345678ULL
 static MBE_THREAD_LOCAL uint64_t mbe_comfort_noise_seed48 = 0;
 static MBE_THREAD_LOCAL int mbe_comfort_noise_seeded = 0;
-/* Thread-local pre-enhancement RM0 handoff from mbe_spectralAmpEnhance(). */
-static MBE_THREAD_LOCAL float mbe_pre_enh_rm0 = 0.0f;
-static MBE_THREAD_LOCAL int mbe_pre_enh_rm0_valid = 0;
-static MBE_THREAD_LOCAL const mbe_parms* mbe_pre_enh_owner = NULL;
+/* Pre-enhancement RM0 handoff from mbe_spectralAmpEnhance() to mbe_applyAdaptiveSmoothing(). It is kept in the
+ * otherwise unused band 0 of the parameter set itself, so that it stays with the stream when other streams are
+ * decoded on the thread, or the set is copied, between the two calls. Zero means no handoff is pending. */
+#define MBE_PRE_ENH_RM0(mp)    ((mp)->PHIl[0])
 
 void
 mbe_seedComfortNoiseRng(uint32_t seed) {
@@ -39,15 +39,9 @@ mbe_seedComfortNoiseRng(uint32_t seed) {
 }
 
 void
-mbe_setPreEnhRm0(const mbe_parms* owner, float rm0) {
-    if (owner && rm0 >= 0.0f) {
-        mbe_pre_enh_rm0 = rm0;
-        mbe_pre_enh_rm0_valid = 1;
-        mbe_pre_enh_owner = owner;
-    } else {
-        mbe_pre_enh_rm0 = 0.0f;
-        mbe_pre_enh_rm0_valid = 0;
-        mbe_pre_enh_owner = NULL;
+mbe_setPreEnhRm0(mbe_parms* owner, float rm0) {
+    if (owner) {
+        MBE_PRE_ENH_RM0(owner) = (rm0 > 0.0f) ? rm0 : 0.0f;
     }
 }
 
@@ -190,11 +184,10 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
 
     /* Algorithm #111: Calculate local energy with IIR smoothing */
     float RM0 = 0.0f;
-    if (mbe_pre_enh_rm0_valid && mbe_pre_enh_owner == cur_mp) {
+    if (MBE_PRE_ENH_RM0(cur_mp) > 0.0f) {
         /* Use pre-enhancement RM0 provided by mbe_spectralAmpEnhance(). */
-        RM0 = mbe_pre_enh_rm0;
-        mbe_pre_enh_rm0_valid = 0;
-        mbe_pre_enh_owner = NULL;
+        RM0 = MBE_PRE_ENH_RM0(cur_mp);
+        MBE_PRE_ENH_RM0(cur_mp) = 0.0f;
     } else {
         /* Fallback for direct callers that bypass spectral enhancement. */
         for (int l = 1; l <= L; l++) {
diff --git a/src/internal/mbe_adaptive.h b/src/internal/mbe_adaptive.h
index 8d301e2..7c36453 100644
--- a/src/internal/mbe_adaptive.h
+++ b/src/internal/mbe_adaptive.h
@@ -59,7 +59,7 @@
  * @param owner Frame-parameter owner for this RM0 handoff.
  * @param rm0 Sum of squared pre-enhancement amplitudes.
  */
-void mbe_setPreEnhRm0(const mbe_parms* owner, float rm0);
+void mbe_setPreEnhRm0(mbe_parms* owner, float rm0);
 
 /**
  * @brief Seed the comfort-noise RNG used by mbe_synthesizeComfortNoisef().
-- 
2.43.0


From d33473ec0134aa821d45a5d87fa29d1d772c4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 9/9] fix: IMBE prediction no longer uses the band 0 an AMBE
 frame left behind

---
 src/imbe/imbe7200x4400.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index ca07417..4124608 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -480,6 +480,9 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         rho = 0.7;
     }
 
+    // Band 0 is the constant M0(-1) = 1. IMBE never stores it, so what an AMBE frame left there must not linger.
+    prev_mp->log2Ml[0] = 0.0f;
+
     // fix for when L > L(-1)
     if (cur_mp->L > prev_mp->L) {
         for (l = prev_mp->L + 1; l <= cur_mp->L; l++) {
-- 
2.43.0

