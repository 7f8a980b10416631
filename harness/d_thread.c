/*
 * The same calls alone, after other calls, and from several threads on
 * disjoint buffers (tables of factors, which no call writes, are shared).
 * usage: d_thread OUT SEED MILLISECONDS NTHREADS MAXN
 */
#include "ops.h"
#include "conc.h"
static req_t *T;

static void add1(int f, int k, uint32_t n, int w, req_t *q) {
  q->f = f; q->k = k; q->n = n; q->w = w;
  uint32_t c = rnd(V_NCLASS);
  int32_t lo = 0, hi = HQ - 1;
  if (ISRED && (f == F_XF || f == F_WRAP)) { lo = INLO; hi = INHI; }
  if (f == F_UN && k < 4) { lo = -2147483647; hi = 2147483647; }
  if (f == F_UN && k == 5) { lo = -HQ; hi = 2 * HQ - 1; }
  for (int i = 0; i < 3; i++) fill(q->in[i], n, lo, hi, i ? rnd(V_NCLASS) : c);
  if (f == F_XF) build_tab(q->tab, &gen_ops[k], n, hroot(n, 1));
  if (f == F_MUL16) for (uint32_t i = 0; i < n; i++) q->tab[i] = (tab_t) (ISRED ? (int32_t) rnd(HQ) - 6144 : (int32_t) rnd(HQ));
}
static void add(int f, int k, uint32_t n, int w, const char *op) {
  int i = conc_add(op, f, k, n, 3 * n);
  for (int v = 0; v < NV; v++) add1(f, k, n, w, &T[i * NV + v]);
}
static void work(int k, int v, int32_t *out, unsigned id) {
  static _Thread_local int32_t *m;
  if (!m) m = aligned_alloc(64, 4 * (3 * (MAXCAP + 64)));
  const req_t *q = &T[k * NV + v];
  int32_t *x[3];
  for (int i = 0; i < 3; i++) { x[i] = m + i * (MAXCAP + 64) + (id * 5 + 3 * (unsigned) i) % 16; memcpy(x[i], q->in[i], q->n * 4); }
  perform(q, q->tab, x[0], x[1], x[2]);
  for (int i = 0; i < 3; i++) memcpy(out + (uint32_t) i * q->n, x[i], q->n * 4);
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch(); hx_seed(strtoull(argv[2], NULL, 10) * 131 + FAM);
  unsigned ms = (unsigned) atoi(argv[3]), nthreads = (unsigned) atoi(argv[4]);
  uint32_t maxn = (uint32_t) atoi(argv[5]), n;
  WHERE("%s threads", FAMNAME);
  alarm(hx_limit());
  conc_init();
  T = shared(sizeof *T * MAXTASK * NV);
  static const uint32_t ws[] = { 16, 256, 512, 1024 };
  for (int i = 0; i < 4; i++) {
    n = ws[i];
    for (int k = 0; k < 12; k++) add(F_WRAP, k, n, 0, "wrapper");
    for (int k = 0; k < 5; k++) add(F_PROD, k, n, 0, "product");
#if !ISRED
    add(F_SHUFT, 0, n, 0, "shuffle_with_table");
#endif
  }
  for (int k = 0; k < NGEN; k++) for (n = maxn; n >= 16; n /= 8) add(F_XF, k, n, 0, gen_ops[k].name);
  for (n = maxn; n >= 16; n /= 4) {
    add(F_MUL16, 0, n, 0, "mul_array16"); add(F_MUL2, 0, n, 0, "mul_array"); add(F_SCALAR, 0, n, 6144, "scalar_mul");
#if ISRED
    for (int k = 0; k < 6; k++) if (FAM == 3 || k < 2 || k > 3) add(F_UN, k, n, 0, unname[k]);
#else
    add(F_SHUF, 0, n, 0, "bitrev_shuffle");
#endif
  }
  alone();
  first((int) (2 + ms / 500), nthreads);
  later(2, (int) ms * (FAM == 2 ? 1 : 4));
  many(66000, ms * 4, nthreads);
  threads(ms, nthreads);
  conc_report(FAMNAME, nthreads);
  hx_finish();
  return 0;
}
