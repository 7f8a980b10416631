/*
 * One call of the library, by name: used by d_hist.c and d_thread.c
 */
#ifndef OPS_H
#define OPS_H
#include "fam.h"
#if FAM <= 2
#include "bitrev16_table.h"
#include "bitrev256_table.h"
#include "bitrev512_table.h"
#include "bitrev1024_table.h"
#endif
#define MAXCAP 2048
enum { F_XF, F_WRAP, F_PROD, F_UN, F_MUL16, F_SCALAR, F_MUL2, F_SHUF, F_SHUFT };
static const char *const fname[] = { "xf", "wrap", "prod", "un", "mul16", "scalar", "mul2", "shuf", "shuft" };
typedef struct { int f, k; uint32_t n; int32_t root; int w; tab_t tab[MAXCAP + 64]; int32_t in[3][MAXCAP]; int32_t out[3][MAXCAP]; int done; } req_t;

#if ISRED
#if FAM == 3
#define F(x) x
#else
#define F(x) x##_asm
#endif
static void un(int k, int32_t *a, uint32_t n) {
  switch (k) {
  case 0: F(reduce_array)(a, n); break;
  case 1: F(reduce_array_twice)(a, n); break;
#if FAM == 3
  case 2: normalize(a, n); break;
  case 3: normalize_inv3(a, n); break;
#endif
  case 4: F(shift_array)(a, n); break;
  case 5: F(correct)(a, n); break;
  }
}
static const char *const unname[] = { "red", "red2", "norm", "norm_inv3", "shift", "correct" };
#endif
static void m16(int32_t *a, uint32_t n, const tab_t *p) {
#if FAM == 1
  mul_array16(a, n, p);
#elif FAM == 2
  mul_array16_naive(a, n, p, HQ);
#else
  F(mul_reduce_array16)(a, n, p);
#endif
}
static void m2(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b) {
#if FAM == 1
  mul_array(c, n, a, b);
#elif FAM == 2
  mul_array_naive(c, n, a, b, HQ);
#else
  F(mul_reduce_array)(c, n, a, b);
#endif
}
static void ms(int32_t *a, uint32_t n, int32_t w) {
#if FAM == 1
  scalar_mul_array(a, n, w);
#elif FAM == 2
  scalar_mul_array_naive(a, n, w, HQ);
#else
  F(scalar_mul_reduce_array)(a, n, w);
#endif
}
static const wrap_op *wrap_of(uint32_t n, int k) { for (int i = 0; i < NWRAP; i++) if (wrap_ops[i].n == n) return &wrap_ops[i + k]; return NULL; }
static const prod_op *prod_of(uint32_t n, int k) { for (int i = 0; i < NPROD; i++) if (prod_ops[i].n == n) return &prod_ops[i + k]; return NULL; }

/* p: destination, a, b: sources when they differ from it */
static void perform(const req_t *q, const tab_t *tab, int32_t *d, int32_t *a, int32_t *b) {
  switch (q->f) {
  case F_XF: gen_ops[q->k].f(d, q->n, tab); break;
  case F_WRAP: wrap_of(q->n, q->k)->f(d); break;
  case F_PROD: prod_of(q->n, q->k)->f(d, a, b); break;
#if ISRED
  case F_UN: un(q->k, d, q->n); break;
#else
  case F_SHUF: bitrev_shuffle(d, q->n); break;
  case F_SHUFT:
    if (q->n == 16) shuffle_with_table(d, bitrev16, BITREV16_NPAIRS);
    else if (q->n == 256) shuffle_with_table(d, bitrev256, BITREV256_NPAIRS);
    else if (q->n == 512) shuffle_with_table(d, bitrev512, BITREV512_NPAIRS);
    else shuffle_with_table(d, bitrev1024, BITREV1024_NPAIRS);
    break;
#endif
  case F_MUL16: m16(d, q->n, tab); break;
  case F_SCALAR: ms(d, q->n, q->w); break;
  case F_MUL2: m2(d, q->n, a, b); break;
  }
}
#endif
