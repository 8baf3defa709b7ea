From 73e33e7e5ac29bad32e60eca4708946e161a08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 01/15] fix: align the transpose buffer used by aligned loads
 in AVX-512 contract_all

---
 skel/simint/vectorization/intrinsics_avx512.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skel/simint/vectorization/intrinsics_avx512.h b/skel/simint/vectorization/intrinsics_avx512.h
index c6832d3..4805cbe 100644
--- a/skel/simint/vectorization/intrinsics_avx512.h
+++ b/skel/simint/vectorization/intrinsics_avx512.h
@@ -105,7 +105,7 @@ union simint_double8
         int ntrans   = ncart  / 8;
         int np_start = ntrans * 8;
         
-        double tmp[64];
+        double tmp[64] __attribute__((aligned(64)));
         __m512d dst[8];
         
         // Transpose-Add part
-- 
2.43.0


From a99ac7286c3f83bcd78cb97df09adb2524c1d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 02/15] fix: SSE vector_max must not return 0 for all-negative
 vectors

---
 skel/simint/vectorization/intrinsics_sse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skel/simint/vectorization/intrinsics_sse.h b/skel/simint/vectorization/intrinsics_sse.h
index a938909..d77134a 100644
--- a/skel/simint/vectorization/intrinsics_sse.h
+++ b/skel/simint/vectorization/intrinsics_sse.h
@@ -144,8 +144,8 @@ static inline __m128d simint_pow_vec2(__m128d a, __m128d p)
     double vector_max(__m128d v)
     {
         union simint_double2 m = { v };
-        double max = 0.0;
-        for(int n = 0; n < SIMINT_SIMD_LEN; n++)
+        double max = m.d[0];
+        for(int n = 1; n < SIMINT_SIMD_LEN; n++)
             max = (m.d[n] > max ? m.d[n] : max);
         return max;
     }
-- 
2.43.0


From 0a60f8b449366f7bc2bba9157ae573caffd11621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 03/15] fix: skip the padding between batches of bra shell
 pairs

Shell pair data is padded to the vector length after every SIMINT_NSHELL_SIMD
shell pairs. The ket loop skips that padding, the bra loop did not, so bra
pairs after the first batch were computed from shifted primitives.
---
 generator/ostei/OSTEIDeriv1_Writer.cpp | 3 +++
 generator/ostei/OSTEI_Writer.cpp       | 3 +++
 skel/ostei_s_s_s_s.c                   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/generator/ostei/OSTEIDeriv1_Writer.cpp b/generator/ostei/OSTEIDeriv1_Writer.cpp
index 129d2da..35dd4e3 100644
--- a/generator/ostei/OSTEIDeriv1_Writer.cpp
+++ b/generator/ostei/OSTEIDeriv1_Writer.cpp
@@ -931,7 +931,10 @@ void OSTEIDeriv1_Writer::Write_Full_(void) const
     os_ << indent2 << "}   // close loop cdbatch\n";
 
     os_ << "\n";
+    os_ << indent2 << "// data for the bra primitives is padded at the end of each batch of shell pairs\n";
     os_ << indent2 << "istart = iend;\n";
+    os_ << indent2 << "if(((ab+1) % SIMINT_NSHELL_SIMD) == 0)\n";
+    os_ << indent3 << "istart = SIMINT_SIMD_ROUND(istart);\n";
 
     os_ << indent1 << "}  // close loop over ab\n";
     os_ << "\n";
diff --git a/generator/ostei/OSTEI_Writer.cpp b/generator/ostei/OSTEI_Writer.cpp
index 25d4987..b19c8ea 100644
--- a/generator/ostei/OSTEI_Writer.cpp
+++ b/generator/ostei/OSTEI_Writer.cpp
@@ -731,7 +731,10 @@ void OSTEI_Writer::Write_Full_(void) const
     os_ << indent2 << "}   // close loop cdbatch\n";
 
     os_ << "\n";
+    os_ << indent2 << "// data for the bra primitives is padded at the end of each batch of shell pairs\n";
     os_ << indent2 << "istart = iend;\n";
+    os_ << indent2 << "if(((ab+1) % SIMINT_NSHELL_SIMD) == 0)\n";
+    os_ << indent3 << "istart = SIMINT_SIMD_ROUND(istart);\n";
 
     os_ << indent1 << "}  // close loop over ab\n";
     os_ << "\n";
diff --git a/skel/ostei_s_s_s_s.c b/skel/ostei_s_s_s_s.c
index 408432d..d5aec83 100644
--- a/skel/ostei_s_s_s_s.c
+++ b/skel/ostei_s_s_s_s.c
@@ -314,7 +314,10 @@ int ostei_s_s_s_s(struct simint_multi_shellpair const P,
             
         }   // close loop cdbatch
 
+        // data for the bra primitives is padded at the end of each batch of shell pairs
         istart = iend;
+        if(((ab+1) % SIMINT_NSHELL_SIMD) == 0)
+            istart = SIMINT_SIMD_ROUND(istart);
     }  // close loop over ab
     
     #if defined SIMINT_AVX512 || defined SIMINT_MICAVX512
-- 
2.43.0


From 5e8cb860b358700983f6db6f562c50b9b524ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 04/15] fix: concatenating shell pairs must copy each pair's
 own primitives

simint_cat_multi_shellpair read the primitives of every shell pair from the
start of its input, so all pairs after the first were wrong. Neither
concatenation initialised nprim or padded the screening values.
---
 skel/simint/shell/shell.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index 0c33be0..8d07b64 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -642,15 +642,20 @@ void simint_cat_multi_shellpair(int nmpair,
     Pout->am1 = Pin[0]->am1;
     Pout->am2 = Pin[0]->am2;
     Pout->screen_max = 0.0;
+    Pout->nprim = 0;
 
     // now copy data
     int idx = 0;
     int sasb = 0;
     for(int i = 0; i < nmpair; i++)
     {
+        int p = 0; // where we are reading from in Pin[i]
+
         for(int j = 0; j < Pin[i]->nshell12; j++)
         {
-            for(int p = 0; p < Pin[i]->nprim12[j]; p++)
+            const int pend = p + Pin[i]->nprim12[j];
+
+            for(; p < pend; p++)
             {
                 Pout->x[idx] = Pin[i]->x[p];
                 Pout->y[idx] = Pin[i]->y[p];
@@ -682,7 +687,10 @@ void simint_cat_multi_shellpair(int nmpair,
                 idx++;
             }
 
-            
+            // Pin[i] is padded as well
+            if(((j+1) % SIMINT_NSHELL_SIMD) == 0)
+                p = SIMINT_SIMD_ROUND(p);
+
             Pout->AB_x[sasb] = Pin[i]->AB_x[j];
             Pout->AB_y[sasb] = Pin[i]->AB_y[j];
             Pout->AB_z[sasb] = Pin[i]->AB_z[j];
@@ -707,6 +715,9 @@ void simint_cat_multi_shellpair(int nmpair,
                     Pout->PB_y[idx] = 0.0;
                     Pout->PB_z[idx] = 0.0;
 
+                    if(screen_method)
+                        Pout->screen[idx] = 0.0;
+
                     #if SIMINT_OSTEI_MAXDER > 0
                     Pout->alpha2[idx] = 1.0;
                     Pout->beta2[idx] = 1.0;
@@ -760,6 +771,7 @@ void simint_cat_shellpairs(
     Pout->am1 = Pin[0]->am1;
     Pout->am2 = Pin[0]->am2;
     Pout->screen_max = 0.0;
+    Pout->nprim = 0;
 
     // now copy data
     int idx = 0, sasb = 0;
@@ -852,6 +864,9 @@ void simint_cat_shellpairs(
                 Pout->PB_y[idx] = 0.0;
                 Pout->PB_z[idx] = 0.0;
 
+                if (screen_method)
+                    Pout->screen[idx] = 0.0;
+
                 #if SIMINT_OSTEI_MAXDER > 0
                 Pout->alpha2[idx] = 1.0;
                 Pout->beta2[idx] = 1.0;
-- 
2.43.0


From de24edcd721429a5612854203625f9befa0e9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 05/15] fix: copy only the source's data in simint_copy_shell

The size of the copy was the destination's allocation, which is larger than
the source's when a bigger destination is reused: memory past the end of the
source was read.
---
 skel/simint/shell/shell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index 8d07b64..57486a0 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -241,7 +241,8 @@ void simint_copy_shell(struct simint_shell const * src,
     dest->y = src->y;
     dest->z = src->z;
 
-    memcpy(dest->ptr, src->ptr, dest->memsize);
+    memcpy(dest->alpha, src->alpha, src->nprim * sizeof(double));
+    memcpy(dest->coef, src->coef, src->nprim * sizeof(double));
 }
 
 
-- 
2.43.0


From 037b35d0cd9177559a6a4bde6b49ab9c438fbb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 06/15] fix: simint_primscreen_schwarz must not pad beyond its
 shell pair

The padding was relative to the start of the shell pair, not of the batch, and
could reach past the end of the screening array: with two one-primitive pairs
it zeroed the start of the next array (alpha2 or AB_x). The caller pads the
array at the end of each batch.
---
 skel/simint/shell/shell_screen.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/skel/simint/shell/shell_screen.c b/skel/simint/shell/shell_screen.c
index 2a1f3d7..a26bc68 100644
--- a/skel/simint/shell/shell_screen.c
+++ b/skel/simint/shell/shell_screen.c
@@ -154,7 +154,6 @@ simint_primscreen_schwarz(struct simint_shell const * A,
     double total_max = 0.0;
 
     int idx = 0;
-    int ij = 0;
     for(int i = 0; i < A->nprim; i++)
     {
         simint_create_shell(1, A->am, A->x, A->y, A->z,
@@ -201,15 +200,6 @@ simint_primscreen_schwarz(struct simint_shell const * A,
 
             if(max > total_max)
                 total_max = max;
-
-            ij++;
-
-            // pad out, if needed
-            if( (ij % SIMINT_NSHELL_SIMD) == 0 || ij >= A->nprim*B->nprim)
-            {
-                while(idx < SIMINT_SIMD_ROUND(idx))
-                    out[idx++] = 0.0;
-            }
         }
     }
 
-- 
2.43.0


From ee6355364960d9f427134e6b38851b834fefb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 07/15] fix: ostei_s_s_s_s must not write to the screening
 values of its input

The lanes past the last requested primitive may belong to shell pairs beyond
nshell12_clip; setting their values to zero screened them out of later calls.
---
 skel/ostei_s_s_s_s.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/skel/ostei_s_s_s_s.c b/skel/ostei_s_s_s_s.c
index d5aec83..7c589f4 100644
--- a/skel/ostei_s_s_s_s.c
+++ b/skel/ostei_s_s_s_s.c
@@ -204,12 +204,8 @@ int ostei_s_s_s_s(struct simint_multi_shellpair const P,
                     SIMINT_DBLTYPE prim_screen_res = SIMINT_DBLSET1(0.);
                     if(check_screen)
                     {
-		      if(jend -j < SIMINT_SIMD_LEN ){
-			//initialize remainders when vlen < SIMD_LEN			
-			for(n = jend; n < j+SIMINT_SIMD_LEN; n++)
-			  Q.screen[n] = 0.;
-		      }
-		      prim_screen_res = SIMINT_MUL(bra_screen_max, SIMINT_DBLLOAD(Q.screen, j));
+                        // lanes past the end are not ours
+                        prim_screen_res = SIMINT_MUL(bra_screen_max, mask_load(nlane, Q.screen + j));
                         const double vmax = vector_max(prim_screen_res);
                         if(vmax < screen_tol)
                         {
-- 
2.43.0


From ce5b54dde711dd35730f2d1972612f551cde1a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 08/15] fix: screen_max must be the largest screening value

It started from 1e99, so the maximum was always 1e99 and whole shell quartets
were never recognised as insignificant.
---
 skel/simint/shell/shell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index 57486a0..7ee6f23 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -432,7 +432,8 @@ void simint_fill_multi_shellpair2(int npair, struct simint_shell const * AB,
     P->nshell12 = npair;
     P->nshell12_clip = npair; // by default, it's the same
     P->nprim = 0;
-    P->screen_max = 1.e99;
+    // without screening values, nothing may be considered insignificant
+    P->screen_max = (screen_method ? 0.0 : 1.e99);
 
     // zero out
     // This is not really needed, and can be expensive in
-- 
2.43.0


From 89d44fdecc0880333579f8839e59d634c83a0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 09/15] fix: keep the potential integrals' work array off the
 stack

It takes 7.6 MB for two i shells and 17 MB for two k shells, more than a
thread's (or even the main program's) usual stack.
---
 skel/simint/osoei/osoei_potential.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skel/simint/osoei/osoei_potential.c b/skel/simint/osoei/osoei_potential.c
index 56d43e4..b869a52 100644
--- a/skel/simint/osoei/osoei_potential.c
+++ b/skel/simint/osoei/osoei_potential.c
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "simint/boys/boys.h"
@@ -35,8 +36,11 @@ int simint_compute_osoei_potential(int ncenter,
     const int ncart2 = NCART(am2);
     const int ncart12 = ncart1*ncart2;
 
-    //TODO - too big
-    double amwork[nam1][nam2][NCART(am1+1)*NCART(am2+1)*(nam1+nam2+1)];
+    // too big for the stack (17 MB for two k shells)
+    const size_t namwork = NCART(am1+1)*NCART(am2+1)*(nam1+nam2+1);
+    double (*amwork)[nam2][namwork] = malloc(nam1*nam2*namwork*sizeof(double));
+    if(amwork == NULL)
+        return -1;
 
     // Zero the output array
     memset(integrals, 0, ncart12*sizeof(double));
@@ -215,6 +219,8 @@ int simint_compute_osoei_potential(int ncenter,
         } // end loop over primitive b
     } // close loop over atoms
 
+    free(amwork);
+
     return 1;
 }
 
-- 
2.43.0


From 6b13658278c78530714ab41c45e0c538581425dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 10/15] fix: do not underflow in the asymptotic Boys function
 for single values

x**-(2n+1) underflows long before its square root does (for n = 20 at
x = 3e7); the downward recursion then returns 0 for every order.
---
 skel/simint/boys/boys_long.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skel/simint/boys/boys_long.h b/skel/simint/boys/boys_long.h
index 7aff703..00c46fe 100644
--- a/skel/simint/boys/boys_long.h
+++ b/skel/simint/boys/boys_long.h
@@ -27,9 +27,8 @@ void boys_F_long(double * restrict F, double x, int n)
 static inline
 double boys_F_long_single(double x, int n)
 {
-    const double p = -(2*n+1);
-    const double x2 = pow(x, p);
-    return boys_longfac[n] * sqrt(x2);
+    const double p = -((double)n+0.5);
+    return boys_longfac[n] * pow(x, p);
 }
 
 static inline
-- 
2.43.0


From dbfe06ea2105c0b178e080bd623f16b39ca551f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 11/15] fix: Fortran simint_copy_shell must not leave its
 destination undefined on entry

simint_copy_shell in C reuses (or frees) the memory the destination
already holds, so the dummy argument has a defined value on entry.
---
 skel/simint/simint.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skel/simint/simint.f90 b/skel/simint/simint.f90
index 9dd8c97..c303723 100644
--- a/skel/simint/simint.f90
+++ b/skel/simint/simint.f90
@@ -279,7 +279,7 @@ module SimintFortran
     subroutine simint_copy_shell(src, dest)
       implicit none
       type(c_simint_shell), intent(in), target :: src
-      type(c_simint_shell), intent(out), target :: dest
+      type(c_simint_shell), intent(inout), target :: dest
 
       call c_simint_copy_shell(C_LOC(src), C_LOC(dest))
     end subroutine
-- 
2.43.0


From 1d74c83c49198baa4a01a85fc8c5a97ab85ad4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 12/15] fix: preprocess simint.f90 with GNU compilers too

The Intel and PGI branches ask for preprocessing; without it gfortran
ignores the conditional in c_simint_multi_shellpair (Makefile builds)
and the type no longer matches the C structure when SIMINT_MAXDER is 0.
---
 skel/cmake/DefaultFlags.cmake | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skel/cmake/DefaultFlags.cmake b/skel/cmake/DefaultFlags.cmake
index efa49b9..ef11204 100644
--- a/skel/cmake/DefaultFlags.cmake
+++ b/skel/cmake/DefaultFlags.cmake
@@ -53,6 +53,8 @@ elseif("${CMAKE_C_COMPILER_ID}" MATCHES "GNU" OR
   list(APPEND SIMINT_C_FLAGS "-Wno-unused-parameter")
   list(APPEND SIMINT_C_FLAGS "-Wno-unused-variable")
 
+  list(APPEND SIMINT_Fortran_FLAGS "-cpp")
+
   list(APPEND SIMINT_TESTS_CXX_FLAGS "-std=c++11")
   list(APPEND SIMINT_TESTS_CXX_FLAGS "-Wall;-Wextra;-pedantic")
   list(APPEND SIMINT_TESTS_CXX_FLAGS "-Wno-unused-parameter")
-- 
2.43.0


From b7a7b98653e943013c81055f0d71c70e7851ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 13/15] fix: reject derivative orders the generator cannot
 produce

Only energies and first derivatives exist; -d 2 wrote headers, tables
and file lists for a derivative level without any routine.
---
 create.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/create.py b/create.py
index f7caad1..312d5fb 100755
--- a/create.py
+++ b/create.py
@@ -91,7 +91,7 @@ parser.add_argument("-ve", required=False, type=int, default=0, help="External V
 parser.add_argument("-vg", required=False, type=int, default=0, help="General VRR for this L value and above")
 parser.add_argument("-he", required=False, type=int, default=0, help="External HRR for this L value and above")
 parser.add_argument("-hg", required=False, type=int, default=0, help="General HRR for this L value and above")
-parser.add_argument("-d", required=False, type=int, default=0, help="Maximum derivative to generate code for")
+parser.add_argument("-d", required=False, type=int, default=0, choices=[0, 1], help="Maximum derivative to generate code for")
 parser.add_argument("-printq", required=False, action="store_true", help="Print out the list of valid quartets")
 parser.add_argument("outdir", type=str, help="Output directory")
 
-- 
2.43.0


From fccf1f58af5597526cd1014f8fcef7a13e5ca48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 14/15] fix: keep one source list per derivative level

The list was multiplied, so all levels were the same object and a build
with SIMINT_MAXDER=0 was given the first-derivative sources as well.
A derivative level still needs the levels below it, so its list now
includes them.
---
 create.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/create.py b/create.py
index 312d5fb..d1f6ab6 100755
--- a/create.py
+++ b/create.py
@@ -216,7 +216,7 @@ reqext_vrr = []
 
 # This keeps track of which L values require what
 # files (ERI, VRR, HRR)
-filelists = [{ k: [] for k in range(0, maxam+1) }]*(derorder+1)
+filelists = [{ k: [] for k in range(0, maxam+1) } for _ in range(derorder+1)]
 
 # This keeps track of the buffer sizes (also by derivative)
 memreq = [{}]*(derorder+1)
@@ -660,9 +660,11 @@ with open(headerfile, 'a') as hfile:
 for d in range(0, derorder+1):
     for l,r in filelists[d].items():
       # Make a list of all requirements up to this one
+      # (a derivative level needs the levels below it as well)
       allr = []
-      for l2 in range(0, l+1):
-        allr.extend(filelists[d][l2])
+      for d2 in range(0, d+1):
+        for l2 in range(0, l+1):
+          allr.extend(filelists[d2][l2])
 
       # Write out to file
       fpath = os.path.join(outdir_osteigen, "filelist_d{}_{}".format(d, l))
-- 
2.43.0


From 02b56963b78d7d89390d0c5faa7953f67f0d3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 15/15] fix: list the sources of the permuted external VRR
 routines

An external VRR on the second or fourth centre of (s X| s X) delegates to
the routine of the permuted quartet, which was generated but not listed,
so the library could not be linked.
---
 create.py | 49 ++++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/create.py b/create.py
index d1f6ab6..f7054ed 100755
--- a/create.py
+++ b/create.py
@@ -29,6 +29,22 @@ def UniqueQuartet(q):
 def QStr(q):
   return "( {} {} | {} {} )".format(q[0], q[1], q[2], q[3])
 
+def VRRFile(v):
+  return "vrr_{}_{}_{}_{}_{}.c".format(v[0], amchar[int(v[1])], amchar[int(v[2])],
+                                       amchar[int(v[3])], amchar[int(v[4])])
+
+
+# The permutation of an external VRR that will actually compute
+# stuff (if any). These are of the form (X s | X s)
+def PermutedVRR(v):
+  if v[1] == "0" and v[3] == "0":
+    return ("I" if v[0] == "J" else "K", v[2], v[1], v[4], v[3])
+  elif v[1] == "0":
+    return ("I" if v[0] == "J" else "K", v[2], v[1], v[3], v[4])
+  elif v[3] == "0":
+    return ("K" if v[0] == "L" else "I", v[1], v[2], v[4], v[3])
+  return None
+
 
 # The following function allows the use of multiprocess package
 def runostei(lock, arg):
@@ -278,11 +294,9 @@ for q in valid:
     elif line.startswith("SIMINT EXTERNAL VRR"):
       reqam = tuple(line.split()[3:])
       reqext_vrr.append(reqam)
-      filelists[0][mq].append( "vrr_{}_{}_{}_{}_{}.c".format(reqam[0],
-                                                             amchar[int(reqam[1])],
-                                                             amchar[int(reqam[2])],
-                                                             amchar[int(reqam[3])],
-                                                             amchar[int(reqam[4])]) )
+      filelists[0][mq].append(VRRFile(reqam))
+      if PermutedVRR(reqam):
+        filelists[0][mq].append(VRRFile(PermutedVRR(reqam)))
 
 print()
 
@@ -397,11 +411,9 @@ for q in valid:
     elif line.startswith("SIMINT EXTERNAL VRR"):
       reqam = tuple(line.split()[3:])
       reqext_vrr.append(reqam)
-      filelists[1][mq].append( "vrr_{}_{}_{}_{}_{}.c".format(reqam[0],
-                                                             amchar[int(reqam[1])],
-                                                             amchar[int(reqam[2])],
-                                                             amchar[int(reqam[3])],
-                                                             amchar[int(reqam[4])]) )
+      filelists[1][mq].append(VRRFile(reqam))
+      if PermutedVRR(reqam):
+        filelists[1][mq].append(VRRFile(PermutedVRR(reqam)))
 
   print()
 
@@ -560,21 +572,8 @@ reqext_vrr = set()
 
 for v in reqext_vrr_tmp:
   reqext_vrr.add(v)
-  if v[1] == "0" and v[3] == "0":
-    if v[0] == "J":
-      reqext_vrr.add(("I", v[2], v[1], v[4], v[3]))
-    else:
-      reqext_vrr.add(("K", v[2], v[1], v[4], v[3]))
-  elif v[1] == "0":
-    if v[0] == "J":
-      reqext_vrr.add(("I", v[2], v[1], v[3], v[4]))
-    else:
-      reqext_vrr.add(("K", v[2], v[1], v[3], v[4]))
-  elif v[3] == "0":
-    if v[0] == "L":
-      reqext_vrr.add(("K", v[1], v[2], v[4], v[3]))
-    else:
-      reqext_vrr.add(("I", v[1], v[2], v[4], v[3]))
+  if PermutedVRR(v):
+    reqext_vrr.add(PermutedVRR(v))
 
 
 print()
-- 
2.43.0

