/*
 * Explainer: a textbook transform and product used only to decide whether an
 * observation needs to be written out in full. It is not trusted: its columns
 * are recorded like those of the library and judged by the specification
 * (records of family "explainer"). It is linear by construction.
 */
#ifndef REF_H
#define REF_H
#include "hx.h"

#define MAXN 4096
static int32_t ref_pw[2 * MAXN];
static uint32_t ref_n;
static int32_t ref_root;
static void ref_setup(uint32_t n, int32_t root) {
  if (ref_n == n && ref_root == root) return;
  ref_n = n; ref_root = root;
  ref_pw[0] = 1;
  for (uint32_t i = 1; i < 2 * n; i++) ref_pw[i] = (int32_t) ((int64_t) ref_pw[i - 1] * root % HQ);
}
/* y = transform of x (residues); x and y in the order of the variant */
static void ref_transform(int32_t *y, const int32_t *x, uint32_t n, int32_t root, int comb, bool inrev, bool outrev) {
  static int32_t v[MAXN];
  uint32_t i, s, d, lg = hlog2(n);
  ref_setup(n, root);
  for (i = 0; i < n; i++) { /* to bit-reverse order, weighted */
    uint32_t r = hrev(i, n);
    int32_t u = res(x[inrev ? i : r]);
    if (comb == 1) u = (int32_t) ((int64_t) u * ref_pw[r] % HQ);
    v[i] = u;
  }
  for (d = 1; d < n; d <<= 1)
    for (s = 0; s < n; s += 2 * d)
      for (i = 0; i < d; i++) {
        int32_t w = ref_pw[2 * (i * (n / (2 * d)))];
        int32_t u = v[s + i], z = (int32_t) ((int64_t) v[s + i + d] * w % HQ);
        v[s + i] = (u + z) % HQ;
        v[s + i + d] = (u - z + HQ) % HQ;
      }
  (void) lg;
  for (i = 0; i < n; i++) {
    int32_t u = v[i];
    if (comb == 2) u = (int32_t) ((int64_t) u * ref_pw[i] % HQ);
    y[outrev ? hrev(i, n) : i] = u;
  }
}
/* c = a * b modulo X^n + 1 (residues) */
static void ref_product(int32_t *c, const int32_t *a, const int32_t *b, uint32_t n) {
  static int64_t acc[2 * MAXN];
  static int32_t rb[MAXN];
  uint32_t i, j;
  for (i = 0; i < n; i++) rb[i] = res(b[i]);
  memset(acc, 0, 2 * n * sizeof acc[0]);
  for (i = 0; i < n; i++) {
    int64_t x = res(a[i]);
    if (x) for (j = 0; j < n; j++) acc[i + j] += x * rb[j];
  }
  for (i = 0; i < n; i++) c[i] = res(acc[i] - acc[i + n]);
}
#endif
