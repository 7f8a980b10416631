From b3a6b3901308785d8466cdc6d7a9d84000d56c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:20 +0000
Subject: [PATCH 1/9] fix: naive elementwise products return elements in [0 ..
 q-1]

The naive_ntt<n>_product functions promise a result in [0 .. Q-1], but
about half of the elements they produced were negative: the remainder
operation of C has the sign of its first operand.
---
 src/naive_ntt.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..deea871 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -60,6 +60,16 @@ void shuffle_with_table(int32_t *a, const uint16_t p[][2], uint32_t n) {
  * ELEMENTWISE PRODUCTS
  */
 
+/*
+ * Remainder of x modulo q, in the range [0 ... q-1]
+ * - the transforms below may produce elements between -(q-1) and -1 since
+ *   the remainder operation of C has the sign of its first operand.
+ */
+static inline int32_t mod(int32_t x, int32_t q) {
+  x %= q;
+  return (x < 0) ? x + q : x;
+}
+
 /*
  * In-place product: a[i] = a[i] * p[i]
  * - a[i] and p[i] must be between 0 and Q-1
@@ -69,7 +79,7 @@ void mul_array16_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q) {
   uint32_t i;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * p[i]) % q;
+    a[i] = mod(a[i] * p[i], q);
   }
 }
 
@@ -81,7 +91,7 @@ void mul_array_naive(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b,
   uint32_t i;
 
   for (i=0; i<n; i++) {
-    c[i] = (a[i] * b[i]) % q;
+    c[i] = mod(a[i] * b[i], q);
   }
 }
 
@@ -97,7 +107,7 @@ void scalar_mul_array_naive(int32_t *a, uint32_t n, int32_t c, int32_t q) {
   uint32_t i;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * c) % q;
+    a[i] = mod(a[i] * c, q);
   }
 }
 
-- 
2.43.0


From a38fbe02b675c525a79d96647f9f9fed24265fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 2/9] fix: make the bounds on red(w * x) sound for every
 interval

min/max_red_mul_interval assumed |x| <= b, so they stopped too early and
returned wrong bounds when |a| > b (e.g., x in [-17112, -14165] and w in
[-1719, -1697]: the minimum is -7114 but 0 was returned). They also
returned 0 when 0 is not reachable. min/max_red_mul did not terminate (or
divided by zero) for w = 0.
---
 src/red_bounds.c | 54 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..7bd49da 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,11 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) { // red(w * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +176,11 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) { // red(w * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -209,13 +219,16 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  // c = max of |x| for a <= x <= b
+  c = (-a < b) ? b : -a;
+
+  // initial candidate: w = 0 if that's allowed or w = low
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  r_max = max_red_mul(a, b, w_max, &x_max);
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -223,10 +236,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -244,8 +257,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -267,23 +280,26 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   // c = max of |x| for a <= x <= b
+   c = (-a < b) ? b : -a;
+
+   // initial candidate: w = 0 if that's allowed or w = low
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   r_min = min_red_mul(a, b, w_min, &x_min);
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -296,12 +312,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From e148614b5fb032ae15332f451f33a82247dbeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:48 +0000
Subject: [PATCH 3/9] fix: detect 64bit overflow in interval addition and
 subtraction

The overflow tests were done on the result of a signed operation that may
overflow. This is undefined behavior and gcc -O3 removes the tests, so
add([2^63-1, 2^63-1], [1, 1]) returned [-2^63, -2^63] and no error.
---
 src/intervals.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..492a69a 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -79,26 +79,22 @@ interval_t *neg(const interval_t *a) {
 
 // addition of x and y with overflow detection
 static int64_t add64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x + y;
-  if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
+  // check before adding: signed overflow is undefined so
+  // the compiler may remove a test on x + y.
+  if ((y < 0 && x < INT64_MIN - y) || (y >= 0 && x > INT64_MAX - y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x + y;
 }
 
 // subtraction: x - y with overflow detection
 static int64_t sub64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x - y;
-  if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
+  if ((y < 0 && x > INT64_MAX + y) || (y >= 0 && x < INT64_MIN + y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x - y;
 }
 
 
-- 
2.43.0


From 8241342d5a1adfeea740cc93a3ff635fb9e284cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:48 +0000
Subject: [PATCH 4/9] fix: red_bounds.h: the array of bounds has log_2(n)+1
 elements

ntt_ct_bounds and ntt_gs_bounds store the initial bound and one bound per
round.
---
 src/red_bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/red_bounds.h b/src/red_bounds.h
index ca34527..4d4954b 100644
--- a/src/red_bounds.h
+++ b/src/red_bounds.h
@@ -81,7 +81,7 @@ extern int64_t gs_bound_fixed(int64_t b, int64_t w);
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bounds (must be of size log_2(n))
+ * Bounds for each round are stored in array bounds (must be of size log_2(n)+1)
  */
 extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
@@ -93,7 +93,7 @@ extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bound (must be of size log_2(n))
+ * Bounds for each round are stored in array bound (must be of size log_2(n)+1)
  */
 extern int64_t ntt_gs_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
-- 
2.43.0


From 7b408cf4569dc146900386ffdea21143ecbe67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:52 +0000
Subject: [PATCH 5/9] fix: no signed overflow in mul_red at the end of its
 documented range

---
 src/ntt_red.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ntt_red.c b/src/ntt_red.c
index deef16f..f92f86d 100644
--- a/src/ntt_red.c
+++ b/src/ntt_red.c
@@ -41,8 +41,7 @@ static int32_t mul_red(int32_t x, int32_t y) {
   z = (int64_t) x * y;
   assert(-8796042698752 <= z && z <= 8796093026303);
   x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  return 3 * x - (z >> 12); // z >> 12 alone may be 2^31
 }
 
 #if 0
-- 
2.43.0


From aa95fd6675affc71fee07bb643d8b19b7d87ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:07 +0000
Subject: [PATCH 6/9] fix: AVX2 functions: ignore the unspecified upper half of
 the size argument

n is a 32bit argument: by the System V calling convention the upper half of
rsi is not specified (compilers leave anything there), but all functions used
rsi as a 64bit size.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..18c6e41 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi                // the size is 32 bits: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From 8406c0786e8370ac6f9798f9e395afa9355f66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:20 +0000
Subject: [PATCH 7/9] fix: table generators: report files that could not be
 written completely

The generators ignored errors of fprintf and fclose: on a full disk they
left truncated tables and exited with status 0.
---
 src/make_bitrev_table.c | 17 +++++++++++++++--
 src/make_red_tables.c   | 17 +++++++++++++++--
 src/make_tables.c       | 17 +++++++++++++++--
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/make_bitrev_table.c b/src/make_bitrev_table.c
index 883fb68..4636032 100644
--- a/src/make_bitrev_table.c
+++ b/src/make_bitrev_table.c
@@ -122,6 +122,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f. Exit with an error if it could not be written completely.
+ */
+static void close_file(FILE *f) {
+  int failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0 || failed) {
+    fprintf(stderr, "failed to write the tables\n");
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +167,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f);
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +175,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f);
   
   return 0;
 }
diff --git a/src/make_red_tables.c b/src/make_red_tables.c
index 45e8980..49a088e 100644
--- a/src/make_red_tables.c
+++ b/src/make_red_tables.c
@@ -416,6 +416,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f. Exit with an error if it could not be written completely.
+ */
+static void close_file(FILE *f) {
+  int failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0 || failed) {
+    fprintf(stderr, "failed to write the tables\n");
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -500,7 +513,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f);
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -508,7 +521,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f);
   
   return 0;
 }
diff --git a/src/make_tables.c b/src/make_tables.c
index b567de5..6e59d9e 100644
--- a/src/make_tables.c
+++ b/src/make_tables.c
@@ -355,6 +355,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f. Exit with an error if it could not be written completely.
+ */
+static void close_file(FILE *f) {
+  int failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0 || failed) {
+    fprintf(stderr, "failed to write the tables\n");
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +440,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f);
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +448,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f);
   
   return 0;
 }
-- 
2.43.0


From 5ff3f7bb187dde5fe24bdd37d7a3c1e9983537f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 8/9] fix: sort: recursion depth at most log_2(n), no stack
 overflow on long arrays

---
 src/sort.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index bdec3d9..1ba2324 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -4,8 +4,6 @@
 
 #include "sort.h"
 
-static void qsort_int_array(uint64_t *a, uint32_t n);
-
 // insertion sort
 static void isort_int_array(uint64_t *a, uint32_t n) {
   uint32_t i, j;
@@ -23,16 +21,10 @@ static void isort_int_array(uint64_t *a, uint32_t n) {
   }
 }
 
-static inline void sort_array(uint64_t *a, uint32_t n) {
-  if (n < 10) {
-    isort_int_array(a, n);
-  } else {
-    qsort_int_array(a, n);
-  }
-}
-
-// quick sort: requires n > 1
-static void qsort_int_array(uint64_t *a, uint32_t n) {
+// partition: requires n > 1
+// - choose a pivot and return its final position j
+// - on return, a[0 ... j-1] <= pivot and a[j+1 ... n-1] >= pivot
+static uint32_t partition(uint64_t *a, uint32_t n) {
   uint32_t i, j;
   uint64_t x, y;
 
@@ -61,10 +53,27 @@ static void qsort_int_array(uint64_t *a, uint32_t n) {
   a[0] = a[j];
   a[j] = x;
 
-  // sort a[0...j-1] and a[j+1 .. n-1]
-  sort_array(a, j);
-  j++;
-  sort_array(a + j, n - j);
+  return j;
+}
+
+// quick sort: recursion is on the smaller part only
+// so that the stack depth is at most log_2(n)
+static void sort_array(uint64_t *a, uint32_t n) {
+  uint32_t j;
+
+  while (n >= 10) {
+    j = partition(a, n);
+    // sort a[0...j-1] and a[j+1 .. n-1]
+    if (j < n - j - 1) {
+      sort_array(a, j);
+      a += j + 1;
+      n -= j + 1;
+    } else {
+      sort_array(a + j + 1, n - j - 1);
+      n = j;
+    }
+  }
+  isort_int_array(a, n);
 }
 
 
-- 
2.43.0


From cd39048a6ac1961a9b0adb7f49f2c2bd3a1abd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:18 +0000
Subject: [PATCH 9/9] fix: size of an interval overflowed for intervals wider
 than 2^63

The signed subtraction a->max - a->min is undefined when it overflows;
subtract as unsigned 64bit integers instead.
---
 src/intervals.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 492a69a..e0fef88 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -103,9 +103,8 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned arithmetic: a->max - a->min may overflow
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0

