/*
 * Memory footprint of every function: operands between inaccessible pages,
 * constant operands in read-only pages, canaries around misaligned operands.
 * usage: d_mem OUT SEED WEIGHT PART NPARTS
 */
#include "fam.h"
#if FAM <= 2
#include "bitrev16_table.h"
#include "bitrev256_table.h"
#include "bitrev512_table.h"
#include "bitrev1024_table.h"
#endif
#if FAM == 1
#include "sort.h"
#elif FAM == 3
#include "red_bounds.h"
#endif
#include "guard.h"
static void data(int32_t *a, uint32_t n, int32_t lo, int32_t hi) { for (uint32_t i = 0; i < n; i++) a[i] = (int32_t) rnd_in(lo, hi); }

#if ISRED
#if FAM == 3
#define F(x) x
#else
#define F(x) x##_asm
extern void reduce_array_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void reduce_array_twice_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void mul_reduce_array16_asm2(int32_t *, uint32_t, const int16_t *) __attribute__((weak));
#endif
static const struct { const char *name; void (*f)(int32_t *, uint32_t); int32_t lo, hi; } un[] = {
  { "reduce_array", F(reduce_array), INT32_MIN, INT32_MAX }, { "reduce_array_twice", F(reduce_array_twice), INT32_MIN, INT32_MAX },
  { "shift_array", F(shift_array), 0, HQ - 1 }, { "correct", F(correct), -HQ, 2 * HQ - 1 },
#if FAM == 3
  { "normalize", normalize, INT32_MIN, INT32_MAX }, { "normalize_inv3", normalize_inv3, INT32_MIN, INT32_MAX },
#else
  { "reduce_array_asm2", reduce_array_asm2, INT32_MIN, INT32_MAX }, { "reduce_array_twice_asm2", reduce_array_twice_asm2, INT32_MIN, INT32_MAX },
#endif
};
#endif
static void m16(int32_t *a, uint32_t n, const tab_t *p) {
#if FAM == 1
  mul_array16(a, n, p);
#elif FAM == 2
  mul_array16_naive(a, n, p, HQ);
#else
  F(mul_reduce_array16)(a, n, p);
#endif
}
static void m2(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b) {
#if FAM == 1
  mul_array(c, n, a, b);
#elif FAM == 2
  mul_array_naive(c, n, a, b, HQ);
#else
  F(mul_reduce_array)(c, n, a, b);
#endif
}
static void ms(int32_t *a, uint32_t n, int32_t w) {
#if FAM == 1
  scalar_mul_array(a, n, w);
#elif FAM == 2
  scalar_mul_array_naive(a, n, w, HQ);
#else
  F(scalar_mul_reduce_array)(a, n, w);
#endif
}

int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  guard_init();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]), unit = 0;
  uint64_t seed = strtoull(argv[2], NULL, 10);
  alarm(hx_limit());
  uint32_t n, r, reps = 8 * weight;
  /* generic transforms */
  for (n = FAM == 4 ? 16 : 2; n <= 2048; n <<= 1)
    for (int k = 0; k < NGEN; k++) {
      if (unit++ % nparts != part) continue;
      hx_seed(seed ^ hx_hash(gen_ops[k].name) ^ n);
      begin();
      for (r = 0; r < reps; r++) {
        int32_t *a = place(0, 4 * n, (int) (r & 3), 4); tab_t *p = place(3, 2 * n, (int) (r / 2 & 3), 2);
        data(a, n, INLO, INHI); build_tab(p, &gen_ops[k], n, hroot(n, 2 * rnd(n) + 1));
        WHERE("%s n=%u memory", gen_ops[k].name, n);
        CALL(ZA | ZP | RO(ZP), gen_ops[k].f(a, n, p));
      }
      report("xform", gen_ops[k].name, n);
    }
  for (int k = 0; k < NWRAP; k++) {
    if (unit++ % nparts != part) continue;
    n = wrap_ops[k].n; hx_seed(seed ^ hx_hash(wrap_ops[k].name)); begin();
    for (r = 0; r < reps; r++) {
      int32_t *a = place(0, 4 * n, (int) (r & 3), 4);
      data(a, n, INLO, INHI);
      CALL(ZA, wrap_ops[k].f(a));
    }
    report("xform", wrap_ops[k].name, n);
  }
  for (int k = 0; k < NPROD; k++) {
    if (unit++ % nparts != part) continue;
    n = prod_ops[k].n; hx_seed(seed ^ hx_hash(prod_ops[k].name) ^ n); begin();
    for (r = 0; r < 3 * reps; r++) {
      int32_t *a = place(0, 4 * n, (int) (r & 3), 4), *b = place(1, 4 * n, (int) rnd(4), 4), *c = place(2, 4 * n, (int) rnd(4), 4);
      data(a, n, 0, HQ - 1); data(b, n, 0, HQ - 1); data(c, n, INT32_MIN, INT32_MAX);
      CALL(ZA | ZB | ZC, prod_ops[k].f(c, a, b));
    }
    report("product", prod_ops[k].name, n);
  }
  /* elementwise, all lengths */
  for (uint32_t l = FAM == 4 ? 1 : 0; l <= 408; l++) {
    static const uint32_t large[] = { 2048, 4096, 4112, 8192, 10000, 16384, 32768, 65536 };
    n = l > 400 ? large[l - 401] : FAM == 4 ? 16 * l : l <= 140 ? l : 140 + 7 * (l - 140);
    if (FAM == 4 && l > 130 && l <= 400) continue;
    if (unit++ % nparts != part) continue;
    hx_seed(seed * 31 + n);
#if ISRED
    for (uint32_t k = 0; k < sizeof un / sizeof un[0]; k++) if (un[k].f) {
      begin();
      for (r = 0; r < 4; r++) { int32_t *a = place(0, 4 * n, (int) r, 4); data(a, n, un[k].lo, un[k].hi); WHERE("%s n=%u memory", un[k].name, n); CALL(ZA, un[k].f(a, n)); }
      report("unary", un[k].name, n);
    }
#endif
    begin();
    for (r = 0; r < 4; r++) { int32_t *a = place(0, 4 * n, (int) r, 4); data(a, n, 0, HQ - 1); tab_t *p = place(3, 2 * n, (int) (r ^ (l & 3)), 2); for (uint32_t i = 0; i < n; i++) p[i] = (tab_t) rnd(6145); CALL(ZA | ZP | RO(ZP), m16(a, n, p)); }
    report("mul16", "mul_array16", n);
#if FAM == 4
    if (mul_reduce_array16_asm2) {
      begin();
      for (r = 0; r < 4; r++) { int32_t *a = place(0, 4 * n, (int) r, 4); data(a, n, 0, HQ - 1); tab_t *p = place(3, 2 * n, (int) (r ^ (l & 3)), 2); for (uint32_t i = 0; i < n; i++) p[i] = (tab_t) rnd(6145); CALL(ZA | ZP | RO(ZP), mul_reduce_array16_asm2(a, n, p)); }
      report("mul16", "mul_reduce_array16_asm2", n);
    }
#endif
    begin();
    for (r = 0; r < 4; r++) {
      int32_t *a = place(0, 4 * n, (int) r, 4), *b = place(1, 4 * n, (int) rnd(4), 4), *c = place(2, 4 * n, (int) rnd(4), 4);
      data(a, n, 0, HQ - 1); data(b, n, 0, HQ - 1); data(c, n, INT32_MIN, INT32_MAX);
      CALL(ZA | ZB | ZC | RO(ZA) | RO(ZB), m2(c, n, a, b));
    }
    report("mul2", "mul_array", n);
    begin();
    for (r = 0; r < 4; r++) { int32_t *a = place(0, 4 * n, (int) r, 4); data(a, n, 0, HQ - 1); CALL(ZA, ms(a, n, (int32_t) rnd(6145))); }
    report("scalar", "scalar_mul_array", n);
  }
#if FAM <= 2
  for (n = 1; n <= 65536; n <<= 1) {
    if (unit++ % nparts != part) continue;
    begin();
    for (r = 0; r < 4; r++) { int32_t *a = place(0, 4 * n, (int) r, 4); data(a, n, INT32_MIN, INT32_MAX); CALL(ZA, bitrev_shuffle(a, n)); }
    report("shuffle", "bitrev_shuffle", n);
  }
  static const struct { uint32_t n; const uint16_t (*p)[2]; uint32_t np; } T[] = {
    { 16, bitrev16, BITREV16_NPAIRS }, { 256, bitrev256, BITREV256_NPAIRS }, { 512, bitrev512, BITREV512_NPAIRS }, { 1024, bitrev1024, BITREV1024_NPAIRS } };
  for (int t = 0; t < 4; t++) {
    n = T[t].n; begin();
    for (r = 0; r < 4; r++) {
      int32_t *a = place(0, 4 * n, (int) r, 4); data(a, n, INT32_MIN, INT32_MAX);
      uint16_t (*p)[2] = place(3, 4 * T[t].np, (int) rnd(2), 2); memcpy(p, T[t].p, 4 * T[t].np);
      CALL(ZA | ZP | RO(ZP), shuffle_with_table(a, (const uint16_t (*)[2]) p, T[t].np));
    }
    report("shuffle", "shuffle_with_table", n);
  }
#endif
#if FAM == 1
  /* sort */
  for (uint32_t l = 0; l <= 120; l++) {
    if (unit++ % nparts != part) continue;
    n = l <= 80 ? l : l <= 112 ? 80 + 61 * (l - 80) : 4096u + 4000 * (l - 112);
    hx_seed(seed * 37 + n); begin();
    for (r = 0; r < 4 * weight; r++) for (uint32_t kind = 0; kind < 6; kind++) {
      uint64_t *v = place(0, 8 * n, (int) (r & 3), 8);
      for (uint32_t i = 0; i < n; i++)
        v[i] = kind == 0 ? rnd64() : kind == 1 ? 7 : kind == 2 ? i : kind == 3 ? n - i : kind == 4 ? rnd(3) : (rnd(2) ? UINT64_MAX : 0);
      WHERE("sort n=%u memory", n);
      CALL(ZA, sort(v, n));
    }
    report("unary", "sort", n);
  }
#elif FAM == 3
  /* bounds per round: an array of log2(n) + 1 elements */
  for (n = 2; n <= 2048; n <<= 1) for (int gs = 0; gs < 2; gs++) {
    if (unit++ % nparts != part) continue;
    hx_seed(seed * 41 + n + (uint32_t) gs); begin();
    for (r = 0; r < (n > 256 ? 2 : 4); r++) {
      int64_t *v = place(0, 8 * (hlog2(n) + 1), (int) (r & 3), 8); tab_t *p = place(3, 2 * n, (int) (r / 2 & 3), 2);
      for (uint32_t i = 0; i < n; i++) p[i] = (tab_t) rnd_in(-6144, 6144);
      WHERE("ntt_%s_bounds n=%u memory", gs ? "gs" : "ct", n);
      if (gs) CALL(ZA | ZP | RO(ZP), ntt_gs_bounds(12288, n, p, v)); else CALL(ZA | ZP | RO(ZP), ntt_ct_bounds(12288, n, p, v));
    }
    report("unary", gs ? "ntt_gs_bounds" : "ntt_ct_bounds", n);
  }
#endif
  hx_finish();
  return 0;
}
