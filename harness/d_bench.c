/*
 * The programs given to the verifier, run on concrete inputs.
 * usage: d_bench OUT SEED WEIGHT PART NPARTS
 * Each program is linked as prog_<name>; its call of a transform is wrapped
 * to see the array and the table.
 */
#include "fam.h"
#include "ref.h"
#include "clam_stub.h"

#define N 1024
typedef void (*tr_t)(int32_t *, uint32_t, const int16_t *);
static int32_t seen_in[N], seen_out[N], seen_p[N];
static uint32_t seen_calls, seen_n;
static int seen_alg;
#define WRAP(f, a) \
  extern void __real_##f(int32_t *, uint32_t, const int16_t *); \
  void __wrap_##f(int32_t *x, uint32_t n, const int16_t *p) { \
    seen_calls++; seen_n = n; seen_alg = a; \
    if (n <= N) { memcpy(seen_in, x, 4 * n); for (uint32_t i = 0; i < n; i++) seen_p[i] = p[i]; } \
    __real_##f(x, n, p); \
    if (n <= N) memcpy(seen_out, x, 4 * n); }
WRAP(ntt_red_ct_rev2std, CT_REV2STD) WRAP(ntt_red_ct_std2rev, CT_STD2REV)
WRAP(ntt_red_gs_rev2std, GS_REV2STD) WRAP(ntt_red_gs_std2rev, GS_STD2REV)

#define P(x) extern int prog_##x(void);
P(harness_ntt_red1024) P(harness_ntt_red1024b) P(harness_ntt_red1024c) P(harness_ntt_red1024d)
P(harness_ntt_red1024e) P(harness_ntt_red1024f) P(harness_intt_red1024) P(harness_intt_red1024b)
typedef struct { const char *name; int (*f)(void); int root; /* 1 psi, -1 its inverse, 0 any table */ } prog_t;
#define R(x, r) { #x, prog_##x, r }
static const prog_t progs[] = {
  R(harness_ntt_red1024, 1), R(harness_ntt_red1024b, 1), R(harness_ntt_red1024c, 0), R(harness_ntt_red1024d, 0),
  R(harness_ntt_red1024e, 1), R(harness_ntt_red1024f, 1), R(harness_intt_red1024, -1), R(harness_intt_red1024b, -1) };
#define NPROGS ((int) (sizeof progs / sizeof progs[0]))

static int32_t feed[2 * N];
static uint32_t fed;
static int next_input(void) { return fed < 2 * N ? feed[fed++] : (fed++, 0); }

/* the documented meaning of a table given as such: twiddle 3*p[t+j], and 1 for j = 0 */
static void run(const prog_t *p, bool raw, int32_t psi) {
  static int32_t y[N];
  volatile int rejected = 0;
  seen_calls = 0; fed = 0; stub_asserts = stub_fails = 0; stub_soft = 1;
  WHERE("%s", p->name);
  hx_calls++;
  if (setjmp(stub_reject) == 0) p->f(); else rejected = 1;
  int32_t root = p->root == 1 ? psi : p->root == -1 ? hinv(psi) : 0;
  bool ok = !rejected && seen_calls == 1 && seen_n == N && stub_fails == 0 && stub_asserts > 0 && memcmp(seen_in, feed, 4 * N) == 0;
  if (ok && p->root) {
    ref_transform(y, seen_in, N, root, C_NTT, alg_inrev[seen_alg], alg_outrev[seen_alg]);
    for (uint32_t i = 0; i < N && ok; i++) ok = res(seen_out[i]) == y[i];
  }
  if (ok && !raw) hx_cases++;
  if (ok && raw) hx_cases++;
  bool full = raw || !ok;
  ev_open("bench"); ev_s("op", p->name); ev_s("alg", alg_name[seen_alg]); ev_i("any", p->root == 0);
  if (p->root) ev_i("root", root);
  ev_i("n", N); ev_i("rejected", rejected); ev_i("calls", seen_calls); ev_i("size", seen_n); ev_i("fails", (int64_t) (stub_fails > 1000000 ? 1000000 : stub_fails));
  ev_i("asserts", stub_asserts > 0);
  ev_i("full", full);
  if (full) { ev_v("fed", feed, N); ev_v("in", seen_in, N); ev_v("p", seen_p, p->root ? 0 : N); ev_v("fedp", feed + N, p->root ? 0 : N); ev_v("out", seen_out, N); }
  ev_end();
}

/* the assertions guard the reduction: they fail exactly outside of the documented range of products */
static void guard(int64_t z0) {
  static const int32_t ws[] = { 1, -1, 2, 3, 4095, 4096, -4096, 4099, 12289, 65536, -65537, 1048576, 2147483647 };
  for (int k = 0; k < (int) (sizeof ws / sizeof ws[0]); k++) {
    int64_t w = ws[k], x = z0 / w;
    for (int64_t d = -2; d <= 2; d++) {
      if (x + d > INT32_MAX || x + d < INT32_MIN) continue;
      int32_t a[1] = { (int32_t) (x + d) }, b[1] = { (int32_t) w }, c[1] = { 0 };
      stub_asserts = stub_fails = 0; stub_soft = 1;
      WHERE("guard");
      if (rnd(2)) mul_reduce_array(c, 1, a, b); else { c[0] = a[0]; scalar_mul_reduce_array(c, 1, b[0]); }
      hx_calls++;
      ev_open("guard"); ev_s("op", "mul_red"); ev_w("z", (x + d) * w); ev_i("failed", stub_fails > 0); ev_i("y", stub_fails ? 0 : c[0]); ev_end();
    }
  }
}

int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]);
  uint64_t seed = strtoull(argv[2], NULL, 10);
  alarm(hx_limit());
  int32_t psi = PARAM(1024, psi);
  stub_input = next_input;
  static double r[N];
  for (int k = 0; k < NPROGS; k++) {
    if (k % (int) nparts != (int) part) continue;
    const prog_t *p = &progs[k];
    hx_seed(seed ^ hx_hash(p->name));
    for (uint32_t c = 0; c < 40 * weight; c++) {
      fill(feed, N, 0, HQ - 1, c);
      fill(feed + N, N, -6144, 6143, p->root ? 0 : c / 3);
      if (c >= 2 * V_NCLASS && p->root) { /* extreme intermediate values */
        int alg = strstr(p->name, "b") || strchr(p->name, 'd') ? CT_REV2STD : strchr("ef", p->name[strlen(p->name) - 1]) ? (p->name[strlen(p->name) - 1] == 'e' ? GS_STD2REV : GS_REV2STD) : CT_STD2REV;
        adjoint(r, N, alg, C_NTT, p->root == 1 ? psi : hinv(psi), rnd(N), 1 + rnd(10));
        int s = rnd(2);
        for (uint32_t i = 0; i < N; i++) feed[i] = (r[i] > 0) == (s > 0) ? HQ - 1 : 0;
      }
      if (c >= 2 * V_NCLASS && !p->root) /* large magnitudes of one sign, twiddles at the ends */
        for (uint32_t i = 0; i < N; i++) { feed[i] = rnd(8) ? HQ - 1 : 0; feed[N + i] = rnd(2) ? -6144 : 6143; }
      run(p, c < 2, psi);
    }
  }
  if (part == 0) {
    hx_seed(seed);
    static const int64_t ends[] = { -8796042698752, 8796093026303, 0, -1, 8796093022208, 1ll << 42, -(1ll << 42), 1ll << 50, -(1ll << 50), 8796093026304 + 12288 };
    for (int k = 0; k < (int) (sizeof ends / sizeof ends[0]); k++) guard(ends[k]);
    for (uint32_t k = 0; k < 20 * weight; k++) guard((int64_t) (rnd64() >> rnd(40)) / 2 * (rnd(2) ? 1 : -1));
  }
  hx_finish();
  return 0;
}
