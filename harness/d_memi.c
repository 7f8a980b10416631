/*
 * Memory footprint of the abstract transforms: arrays of pointers and tables
 * between inaccessible pages, constant ones in read-only pages.
 * usage: d_memi OUT SEED WEIGHT PART NPARTS
 */
#include "hx.h"
#include <fcntl.h>
#include "intervals.h"
#include "ntt_red_interval.h"
#define FAMNAME "interval"
#include "guard.h"
typedef interval_t *ivp;
#define X(f) { #f, abstract_##f, abstract2_##f }
static const struct { const char *name; void (*f)(interval_t **, uint32_t, const int16_t *); void (*g)(interval_t **, uint32_t, const interval_t **); } tr[] = {
  X(ntt_red_ct_rev2std), X(mulntt_red_ct_rev2std), X(ntt_red_ct_std2rev), X(mulntt_red_ct_std2rev),
  X(ntt_red_gs_rev2std), X(nttmul_red_gs_rev2std), X(ntt_red_gs_std2rev), X(nttmul_red_gs_std2rev) };
static const struct { const char *name; void (*f)(interval_t **, uint32_t); int64_t lo, hi; } un[] = {
  { "abstract_normalize", abstract_normalize, -100000, 100000 }, { "abstract_normalize_inv3", abstract_normalize_inv3, -100000, 100000 },
  { "abstract_shift_array", abstract_shift_array, 0, HQ - 1 }, { "abstract_reduce_array", abstract_reduce_array, -100000, 100000 },
  { "abstract_reduce_array_twice", abstract_reduce_array_twice, -100000, 100000 }, { "abstract_correct", abstract_correct, -HQ, 2 * HQ - 1 } };
static void ivfill(ivp *a, uint32_t n, int64_t lo, int64_t hi) {
  for (uint32_t i = 0; i < n; i++) { int64_t x = rnd_in(lo, hi), y = x + rnd(4); a[i] = interval(x, y > hi ? hi : y); }
}
static void drop(ivp *a, uint32_t n) { if (!faulted) for (uint32_t i = 0; i < n; i++) delete_interval(a[i]); }
static void tab(int16_t *p, uint32_t n) { for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) rnd_in(-6144, 6144); }

int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch(); guard_init();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]), unit = 0, n, r;
  uint64_t seed = strtoull(argv[2], NULL, 10);
  int out = dup(1), fd = open("/dev/null", O_WRONLY);
  if (out < 0 || fd < 0) return 2;
  dup2(fd, 1);
  alarm(hx_limit());
  for (n = 2; n <= 2048; n <<= 1)
    for (uint32_t k = 0; k < sizeof tr / sizeof tr[0]; k++) for (int two = 0; two < 2; two++) {
      if (unit++ % nparts != part) continue;
      hx_seed(seed ^ hx_hash(tr[k].name) ^ n ^ (uint64_t) (two << 20)); begin();
      for (r = 0; r < (n > 512 ? 2 : 4) * weight; r++) {
        ivp *a = place(0, sizeof(ivp) * n, (int) (r & 3), sizeof(ivp));
        ivfill(a, n, -21499, 21499);
        WHERE("abstract%s_%s n=%u memory", two ? "2" : "", tr[k].name, n);
        if (two) {
          ivp *p = place(3, sizeof(ivp) * n, (int) (r & 3), sizeof(ivp)), q[2048];
          for (uint32_t i = 0; i < n; i++) { int64_t x = rnd_in(-6144, 6144); p[i] = q[i] = interval(x, x); }
          CALL(ZA | ZP | RO(ZP), tr[k].g(a, n, (const interval_t **) p));
          drop(q, n);
        } else {
          int16_t *p = place(3, 2 * n, (int) (r & 3), 2);
          tab(p, n);
          CALL(ZA | ZP | RO(ZP), tr[k].f(a, n, p));
        }
        drop(a, n);
      }
      report("xform", tr[k].name, n);
    }
  for (uint32_t l = 0; l <= 150; l++) {
    n = l <= 140 ? l : 140 + 51 * (l - 140);
    if (unit++ % nparts != part) continue;
    hx_seed(seed * 31 + n);
    for (uint32_t k = 0; k < sizeof un / sizeof un[0]; k++) {
      begin();
      for (r = 0; r < 4; r++) { ivp *a = place(0, sizeof(ivp) * n, (int) r, sizeof(ivp)); ivfill(a, n, un[k].lo, un[k].hi); WHERE("%s n=%u memory", un[k].name, n); CALL(ZA, un[k].f(a, n)); drop(a, n); }
      report("unary", un[k].name, n);
    }
    begin();
    for (r = 0; r < 4; r++) {
      ivp *a = place(0, sizeof(ivp) * n, (int) r, sizeof(ivp)); int16_t *p = place(3, 2 * n, (int) (r ^ (l & 1)), 2);
      ivfill(a, n, -21499, 21499); tab(p, n); CALL(ZA | ZP | RO(ZP), abstract_mul_reduce_array16(a, n, p)); drop(a, n);
    }
    report("mul16", "abstract_mul_reduce_array16", n);
    begin();
    for (r = 0; r < 4; r++) { ivp *a = place(0, sizeof(ivp) * n, (int) r, sizeof(ivp)); ivfill(a, n, -21499, 21499); CALL(ZA, abstract_scalar_mul_reduce_array(a, n, (int32_t) rnd_in(-6144, 6144))); drop(a, n); }
    report("scalar", "abstract_scalar_mul_reduce_array", n);
    begin();
    for (r = 0; r < 4; r++) {
      static ivp x[1024], y[1024];
      ivp *a = place(0, sizeof(ivp) * n, (int) r, sizeof(ivp)), *b = place(1, sizeof(ivp) * n, (int) rnd(4), sizeof(ivp)), *c = place(2, sizeof(ivp) * n, (int) rnd(4), sizeof(ivp));
      ivfill(x, n, -21499, 21499); ivfill(y, n, -6144, 6144);
      memcpy(a, x, sizeof(ivp) * n); memcpy(b, y, sizeof(ivp) * n); memset(c, 0, sizeof(ivp) * n);
      CALL(ZA | ZB | ZC | RO(ZA) | RO(ZB), abstract_mul_reduce_array(c, n, (const interval_t **) a, (const interval_t **) b));
      drop(c, n); drop(x, n); drop(y, n);
    }
    report("mul2", "abstract_mul_reduce_array", n);
  }
  fflush(stdout);
  dup2(out, 1);
  hx_finish();
  return 0;
}
