/*
 * Intervals, bounds and sort: the same calls alone, after other calls, and
 * from several threads.
 * usage: d_pure OUT SEED MILLISECONDS NTHREADS
 */
#include "hx.h"
#include <fcntl.h>
#include "intervals.h"
#include "red_bounds.h"
#include "ntt_red_interval.h"
#include "sort.h"
#include "conc.h"
#define PN 32
typedef interval_t *ivp;
typedef struct { int64_t a, b, c, d; int16_t tab[PN]; int64_t lo[PN], hi[PN], tlo[PN], thi[PN]; } parg_t;
static parg_t *P;
enum { K_MAXRED, K_MINRED, K_MAXMUL, K_MINMUL, K_MAXIV, K_MINIV, K_CT, K_GS, K_CTF, K_GSF, K_CTN, K_GSN,
       K_POINT, K_ADD, K_SUB, K_NEG, K_RED, K_REDMUL, K_REDSC, K_RED2, K_NORMAL, K_NORMAL3, K_SHIFT, K_CORRECT, K_SORT, K_UN, K_M16, K_SC, K_M2, K_TR, K_TR2 };
#define X(f) { "abstract_" #f, "abstract2_" #f, abstract_##f, abstract2_##f }
static const struct { const char *name, *name2; void (*f)(interval_t **, uint32_t, const int16_t *); void (*g)(interval_t **, uint32_t, const interval_t **); } tr[] = {
  X(ntt_red_ct_rev2std), X(mulntt_red_ct_rev2std), X(ntt_red_ct_std2rev), X(mulntt_red_ct_std2rev),
  X(ntt_red_gs_rev2std), X(nttmul_red_gs_rev2std), X(ntt_red_gs_std2rev), X(nttmul_red_gs_std2rev) };
static const struct { const char *name; void (*f)(interval_t **, uint32_t); int64_t lo, hi; } un[] = {
  { "abstract_normalize", abstract_normalize, -100000, 100000 }, { "abstract_normalize_inv3", abstract_normalize_inv3, -100000, 100000 },
  { "abstract_shift_array", abstract_shift_array, 0, HQ - 1 }, { "abstract_reduce_array", abstract_reduce_array, -100000, 100000 },
  { "abstract_reduce_array_twice", abstract_reduce_array_twice, -100000, 100000 }, { "abstract_correct", abstract_correct, -HQ, 2 * HQ - 1 } };

static void put(int32_t **o, int64_t x) { *(*o)++ = (int32_t) (x >> 32); *(*o)++ = (int32_t) (uint32_t) x; }
static void take(int32_t **o, interval_t *i) { put(o, i->min); put(o, i->max); delete_interval(i); }
static void ivs(ivp *x, const int64_t *lo, const int64_t *hi, uint32_t n) { for (uint32_t i = 0; i < n; i++) x[i] = interval(lo[i], hi[i]); }
static void takes(int32_t **o, ivp *x, uint32_t n) { for (uint32_t i = 0; i < n; i++) take(o, x[i]); }

static void work(int k, int v, int32_t *o, unsigned id) {
  (void) id;
  const ctask_t *t = &C[k * NV + v];
  const parg_t *p = &P[k * NV + v];
  int64_t m = 0, mw = 0, bd[16] = { 0 };
  uint64_t s[PN];
  ivp x[PN], y[PN], z[PN];
  uint32_t n = t->n, i;
  switch (t->f) {
  case K_MAXRED: put(&o, max_red(p->a, p->b, &m)); put(&o, m); break;
  case K_MINRED: put(&o, min_red(p->a, p->b, &m)); put(&o, m); break;
  case K_MAXMUL: put(&o, max_red_mul(p->a, p->b, p->c, &m)); put(&o, m); break;
  case K_MINMUL: put(&o, min_red_mul(p->a, p->b, p->c, &m)); put(&o, m); break;
  case K_MAXIV: put(&o, max_red_mul_interval(p->a, p->b, p->c, p->d, &m, &mw)); put(&o, m); put(&o, mw); break;
  case K_MINIV: put(&o, min_red_mul_interval(p->a, p->b, p->c, p->d, &m, &mw)); put(&o, m); put(&o, mw); break;
  case K_CT: put(&o, ct_bound(p->b - p->a, p->c, p->d)); break;
  case K_GS: put(&o, gs_bound(p->b - p->a, p->c, p->d)); break;
  case K_CTF: put(&o, ct_bound_fixed(p->b - p->a, p->c)); break;
  case K_GSF: put(&o, gs_bound_fixed(p->b - p->a, p->c)); break;
  case K_CTN: put(&o, ntt_ct_bounds(p->b - p->a, n, p->tab, bd)); for (i = 0; i < 6; i++) put(&o, bd[i]); break;
  case K_GSN: put(&o, ntt_gs_bounds(p->b - p->a, n, p->tab, bd)); for (i = 0; i < 6; i++) put(&o, bd[i]); break;
  case K_SORT: for (i = 0; i < n; i++) s[i] = (uint64_t) (i & 1 ? p->lo[i] : p->hi[i]); sort(s, n); for (i = 0; i < n; i++) put(&o, (int64_t) s[i]); break;
  case K_UN: ivs(x, p->lo, p->hi, n); un[t->var].f(x, n); takes(&o, x, n); break;
  case K_M16: ivs(x, p->lo, p->hi, n); abstract_mul_reduce_array16(x, n, p->tab); takes(&o, x, n); break;
  case K_SC: ivs(x, p->lo, p->hi, n); abstract_scalar_mul_reduce_array(x, n, (int32_t) p->c); takes(&o, x, n); break;
  case K_M2: ivs(x, p->lo, p->hi, n); ivs(y, p->tlo, p->thi, n); memset(z, 0, sizeof z);
    abstract_mul_reduce_array(z, n, (const interval_t **) x, (const interval_t **) y); takes(&o, z, n); takes(&o, x, n); takes(&o, y, n); break;
  case K_TR: ivs(x, p->lo, p->hi, n); tr[t->var].f(x, n, p->tab); takes(&o, x, n); break;
  case K_TR2: ivs(x, p->lo, p->hi, n); ivs(y, p->tlo, p->thi, n); tr[t->var].g(x, n, (const interval_t **) y); takes(&o, x, n); takes(&o, y, n); break;
  default: {
    interval_t *a = interval(p->a, p->b), *b = interval(p->c, p->d), *r = NULL;
    switch (t->f) {
    case K_POINT: r = point(p->a); break;
    case K_ADD: r = add(a, b); break;
    case K_SUB: r = sub(a, b); break;
    case K_NEG: r = neg(a); break;
    case K_RED: r = red(a); break;
    case K_REDMUL: r = red_mul(a, b); break;
    case K_REDSC: r = red_scale(p->c, a); break;
    case K_RED2: r = red_twice(a); break;
    case K_NORMAL: r = normal(a); break;
    case K_NORMAL3: r = normal_inv3(a); break;
    case K_SHIFT: r = shift(a); break;
    case K_CORRECT: r = correct(a); break;
    }
    take(&o, r); take(&o, a); take(&o, b);
  } }
}
static void add_p(const char *op, int f, int var, uint32_t n, uint32_t len, int64_t lo, int64_t hi) {
  int k = conc_add(op, f, var, n, len);
  for (int v = 0; v < NV; v++) {
    parg_t *p = &P[k * NV + v];
    /* arguments that differ in one component only are the ones that a record of earlier calls may confuse */
    const parg_t *q = v ? &P[k * NV + v - 1] : p;
    uint32_t i, e = v ? rnd(4) : 4;
    *p = *q;
    if (e & 1 || e == 4) { p->a = rnd_in(lo, hi); p->b = rnd_in(p->a, rnd(3) ? hi : p->a + 5 > hi ? hi : p->a + 5); }
    if (e == 2) p->b = rnd_in(p->a, hi);
    if (e >= 3) { p->c = rnd_in(-6144, 6144); p->d = rnd_in(p->c, rnd(2) ? 6144 : p->c + 3 > 6144 ? 6144 : p->c + 3); }
    if (e == 0) p->d = rnd_in(p->c, 6144);
    for (i = 0; i < PN; i++) if (e == 4 || rnd(8) == 0) {
      p->lo[i] = rnd_in(lo, hi); p->hi[i] = rnd_in(p->lo[i], p->lo[i] + 300 > hi ? hi : p->lo[i] + 300);
      p->tab[i] = (int16_t) rnd_in(-6144, 6144); p->tlo[i] = rnd_in(-6144, 6144); p->thi[i] = rnd_in(p->tlo[i], p->tlo[i] + 20 > 6144 ? 6144 : p->tlo[i] + 20);
    }
  }
}
int main(int argc, char **argv) {
  if (argc != 5) return 2;
  hx_init(argv[1]); hx_catch(); hx_seed(strtoull(argv[2], NULL, 10) * 131 + 55);
  unsigned ms = (unsigned) atoi(argv[3]), nthreads = (unsigned) atoi(argv[4]);
  uint32_t n, i;
  int fd = open("/dev/null", O_WRONLY), keep = dup(1);
  if (fd < 0 || keep < 0) return 2;
  alarm(hx_limit());
  conc_init();
  P = shared(sizeof *P * MAXTASK * NV);
  static const char *const bn[] = { "max_red", "min_red", "max_red_mul", "min_red_mul", "max_red_mul_interval", "min_red_mul_interval", "ct_bound", "gs_bound", "ct_bound_fixed", "gs_bound_fixed" };
  for (i = K_MAXRED; i <= K_GSF; i++) for (int r = 0; r < 2; r++) add_p(bn[i], (int) i, 0, 1, i <= K_MINMUL ? 4 : i <= K_MINIV ? 6 : 2, r ? -21499 : -3000000, r ? 21499 : 3000000);
  for (n = 8; n <= 32; n *= 4) { add_p("ntt_ct_bounds", K_CTN, 0, n, 14, 0, 12288); add_p("ntt_gs_bounds", K_GSN, 0, n, 14, 0, 12288); }
  static const char *const in[] = { "point", "add", "sub", "neg", "red", "red_mul", "red_scale", "red_twice", "normal", "normal_inv3", "shift", "correct" };
  for (i = 0; i < 12; i++) for (int r = 0; r < 2; r++) {
    int64_t lo = i == 10 ? 0 : i == 11 ? -HQ : r ? -30000 : -5000000, hi = i == 10 ? HQ - 1 : i == 11 ? 2 * HQ - 1 : r ? 30000 : 5000000;
    add_p(in[i], K_POINT + (int) i, 0, 1, 12, lo, hi);
  }
  for (n = 3; n <= PN; n += 29) add_p("sort", K_SORT, 0, n, 2 * n, -1000000000000, 1000000000000);
  for (n = 5; n <= 32; n += 27) {
    for (i = 0; i < sizeof un / sizeof un[0]; i++) add_p(un[i].name, K_UN, (int) i, n, 4 * n, un[i].lo, un[i].hi);
    add_p("abstract_mul_reduce_array16", K_M16, 0, n, 4 * n, -21499, 21499);
    add_p("abstract_scalar_mul_reduce_array", K_SC, 0, n, 4 * n, -21499, 21499);
    add_p("abstract_mul_reduce_array", K_M2, 0, n, 12 * n, -21499, 21499);
  }
  for (n = 8; n <= 32; n *= 4) for (i = 0; i < sizeof tr / sizeof tr[0]; i++) {
    add_p(tr[i].name, K_TR, (int) i, n, 4 * n, -21499, 21499);
    add_p(tr[i].name2, K_TR2, (int) i, n, 8 * n, -21499, 21499);
  }
  dup2(fd, 1);      /* the abstract transforms print what they compute */
  alone();
  first((int) (2 + ms / 500), nthreads);
  later(4, (int) ms * 8);
  many(66000, ms * 4, nthreads);
  threads(ms, nthreads);
  fflush(stdout); dup2(keep, 1);
  conc_report("interval", nthreads);
  hx_finish();
  return 0;
}
