From deaa22585c6dca74c311138aeab6bad6198c9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 1/7] fix: open a parallel region for each eighth of a large
 EightStep transform

For N >= 2^19 the eight inner transforms called the worksharing body of
SixStep directly, outside any parallel region of the library. Inside a
caller's own parallel region its 'omp for' constructs and barriers then
bound to the caller's team: work was skipped or the program hung.
---
 src/otfft_eightstep.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/otfft_eightstep.h b/src/otfft_eightstep.h
index e283a08..3b08490 100644
--- a/src/otfft_eightstep.h
+++ b/src/otfft_eightstep.h
@@ -187,14 +187,14 @@ constexpr int OMP_THRESHOLD2 = 1<<19;
                 for (int p = 0; p < N1; p += 2) {
                     fft_and_mult_twiddle_factor_kernel(p, x, y, W);
                 }
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N0, x+N0, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N1, x+N1, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N2, x+N2, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N3, x+N3, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N4, x+N4, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N5, x+N5, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N6, x+N6, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N7, x+N7, Wm, Ws);
                 #pragma omp parallel for schedule(static) firstprivate(x,y)
                 for (int p = 0; p < N1; p += 2) {
                     transpose_kernel(p, y, x);
@@ -329,14 +329,14 @@ constexpr int OMP_THRESHOLD2 = 1<<19;
                 for (int p = 0; p < N1; p += 2) {
                     ifft_and_mult_twiddle_factor_kernel(p, x, y, W);
                 }
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N0, x+N0, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N1, x+N1, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N2, x+N2, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N3, x+N3, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N4, x+N4, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N5, x+N5, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N6, x+N6, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N7, x+N7, Wm, Ws);
                 #pragma omp parallel for schedule(static) firstprivate(x,y)
                 for (int p = 0; p < N1; p += 2) {
                     transpose_kernel(p, y, x);
-- 
2.43.0


From 6b9e9d9678cccdf9a54401659db0f8153e972578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 2/7] fix: do not dereference a missing kernel for transforms
 of length 1

FFT0 sets up no kernel for N = 1, but every transform used it. Real FFT
and DCT of length 2, whose inner complex transform has length 1, crashed.
---
 src/otfft_algo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..43f1484 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -104,16 +104,19 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::fwd(complex_vector x, complex_vector y) const noexcept
     {
+        if (log_N == 0) return; // the transform of length 1 is the identity
         obj->fwd(x, y);
     }
 
     void FFT0::fwd0(complex_vector x, complex_vector y) const noexcept
     {
+        if (log_N == 0) return; // the transform of length 1 is the identity
         obj->fwd0(x, y);
     }
 
     void FFT0::fwdu(complex_vector x, complex_vector y) const noexcept
     {
+        if (log_N == 0) return; // the transform of length 1 is the identity
         obj->fwdu(x, y);
     }
 
@@ -124,6 +127,7 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::inv(complex_vector x, complex_vector y) const noexcept
     {
+        if (log_N == 0) return; // the transform of length 1 is the identity
         obj->inv(x, y);
     }
 
@@ -134,11 +138,13 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::invu(complex_vector x, complex_vector y) const noexcept
     {
+        if (log_N == 0) return; // the transform of length 1 is the identity
         obj->invu(x, y);
     }
 
     void FFT0::invn(complex_vector x, complex_vector y) const noexcept
     {
+        if (log_N == 0) return; // the transform of length 1 is the identity
         obj->invn(x, y);
     }
 
-- 
2.43.0


From 1ff27041b8c6749655c7206a7522fc8db41a0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 3/7] fix: execute XGETBV only where the OS has enabled XSAVE

Without OSXSAVE the instruction raises #UD, so every factory call ended
the process on CPUs or systems that offer SSE2 only.
---
 src/otfft.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..229d572 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,9 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is an illegal instruction unless the OS has enabled XSAVE
+                const bool os_xsave = (cpu_info_1[2] & 0x08000000) != 0;
+                const std::uint64_t cpu_info_xcr = os_xsave ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From b2e14215e1bb62e68b982920a60c324c7df2fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 4/7] fix: report AVX2 only together with AVX

The AVX2 kernels execute AVX instructions too; AVX2 must not be taken as
usable when CPUID does not report AVX.
---
 src/otfft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index 229d572..802cd36 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -131,7 +131,7 @@ namespace
                 CPU_FEATURE_AVX = ((cpu_info_1[2] & 0x10000000) != 0) && ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_1[2] & 0x08000000) != 0) && CPU_FEATURE_XSAVE;
                 CPU_FEATURE_FMA = (cpu_info_1[2] & 0x00001000) != 0;
 
-                if (cpu_info_0[0] >= 7 && CPU_FEATURE_XSAVE)
+                if (cpu_info_0[0] >= 7 && CPU_FEATURE_AVX)
                 {
                     const auto cpu_info_7 = CPUID(7);
 
-- 
2.43.0


From 30a21d778cf40bff0ffaf1f9b438581ba26923dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 5/7] Simulation hook: CPU description from the simulator
 (OTFFT_SIMULATION, off by default)

---
 src/otfft.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index 802cd36..2add35f 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -55,12 +55,20 @@
 
 
 
+#ifdef OTFFT_SIMULATION
+// Simulation builds only (never defined by the regular build): the simulator supplies the CPU description.
+extern "C" void otfft_sim_cpuid(std::int32_t info_type, std::int32_t* regs);
+extern "C" std::uint64_t otfft_sim_xgetbv(std::uint32_t xcr);
+#endif
+
 namespace
 {
     std::array<std::int32_t, 4> CPUID(std::int32_t info_type)
     {
         std::array<std::int32_t, 4> cpu_info;
-#if defined(PLAT_LINUX) || defined(PLAT_MACOS)
+#if defined(OTFFT_SIMULATION)
+        otfft_sim_cpuid(info_type, cpu_info.data());
+#elif defined(PLAT_LINUX) || defined(PLAT_MACOS)
 #if defined(__pic__) && defined(__i386__)
         __asm__ volatile (
                     "mov %%ebx, %%edi\n"
@@ -82,7 +90,9 @@ namespace
 
     std::uint64_t XGETBV(std::uint32_t xcr)
     {
-#if defined(PLAT_WINDOWS) && !defined(PLAT_MINGW)
+#if defined(OTFFT_SIMULATION)
+        return otfft_sim_xgetbv(xcr);
+#elif defined(PLAT_WINDOWS) && !defined(PLAT_MINGW)
         return _xgetbv(xcr);
 #else
         std::uint32_t eax, edx;
-- 
2.43.0


From ef52c533f74c77e5ba663fd2f329f8088f3d2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 6/7] fix: avoid int overflow in twiddle indices for large
 prime factors

For a prime factor k > 46340 the product i*j exceeded INT_MAX; the
negative remainder read before the twiddle table (for example N = 92698).
---
 src/otfft_mixedradix.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..db07f11 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -11,6 +11,8 @@
 
 #include "otfft_misc.h"
 
+#include <cstdint>
+
 namespace OTFFT_NAMESPACE {
 
 namespace OTFFT_MixedRadix { //////////////////////////////////////////////////
@@ -512,7 +514,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*static_cast<int>(static_cast<std::int64_t>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1069,7 +1071,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*static_cast<int>(static_cast<std::int64_t>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1649,7 +1651,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*static_cast<int>(static_cast<std::int64_t>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2233,7 +2235,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*static_cast<int>(static_cast<std::int64_t>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
-- 
2.43.0


From 2972bd6d39214b96e5a2e7478175d33bd455f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 7/7] fix: let Bluestein::setup(0) forget the previous length

---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 43f1484..7aab9e8 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -752,7 +752,7 @@ namespace OTFFT_NAMESPACE
 
     void Bluestein::setup(int n)
     {
-        if (n < 1) return;
+        if (n < 1) { N = 0; return; } // fwd and inv do nothing, whatever the length was before
         N = n;
         const int N2 = 2*N;
         for (L = 1; L < N2 - 1; L *= 2);
-- 
2.43.0

