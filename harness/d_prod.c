/*
 * Products modulo X^n + 1.
 * usage: d_prod OUT SEED WEIGHT PART NPARTS
 */
#include "fam.h"
#include "ref.h"

static int32_t *A, *B, *C;
static uint64_t raw_budget = 40;
static const prod_op *O;

static void ev_prod(const char *k) { ev_open(k); ev_s("fam", FAMNAME); ev_s("op", O->name); ev_i("n", O->n); }

/* what c holds before the call must not matter */
static void dirty(uint32_t n) {
  uint32_t m = rnd(4);
  for (uint32_t i = 0; i < n; i++) C[i] = m == 0 ? 0 : m == 1 ? (int32_t) rnd64() : m == 2 ? INT32_MIN : HQ - 1;
}
static bool canonical(const int32_t *a, uint32_t n) {
  for (uint32_t i = 0; i < n; i++) if (a[i] < 0 || a[i] >= HQ) return false;
  return true;
}
static void call(const int32_t *a, const int32_t *b) {
  uint32_t n = O->n;
  memcpy(A, a, n * 4); memcpy(B, b, n * 4);
  dirty(n);
  O->f(C, A, B);
  hx_calls++;
}
/* products of monomials: x X^i * y X^j is one monomial */
#define MM 2048
static void monomials(uint32_t count) {
  static int32_t vi[MM], vj[MM], vx[MM], vy[MM], vp[MM], vv[MM], a[MAXN], b[MAXN];
  uint32_t n = O->n, m = 0, c, k;
  if (count > MM) count = MM;
  for (c = 0; c < count; c++) {
    uint32_t i = n == 16 && c < 256 ? c / 16 : c < n ? c : rnd(n), j = n == 16 && c < 256 ? c % 16 : rnd(3) ? rnd(n) : n - 1;
    int32_t x = 1 + (int32_t) rnd(HQ - 1), y = rnd(2) ? 1 : HQ - 1;
    memset(a, 0, n * 4); memset(b, 0, n * 4);
    a[i] = x; b[j] = y;
    if (c & 1) { int32_t t = a[i]; (void) t; call(b, a); } else call(a, b);
    int32_t p = -1; uint32_t nz = 0;
    for (k = 0; k < n; k++) if (C[k]) { nz++; p = (int32_t) k; }
    if (nz == 1) { vi[m] = (int32_t) i; vj[m] = (int32_t) j; vx[m] = x; vy[m] = y; vp[m] = p; vv[m] = C[p]; m++; hx_cases++; }
    else if (raw_budget) { raw_budget--; ev_prod("prod"); ev_v("a", (c & 1) ? b : a, n); ev_v("b", (c & 1) ? a : b, n); ev_v("c", C, n); ev_end(); }
  }
  ev_prod("mono"); ev_v("i", vi, m); ev_v("j", vj, m); ev_v("x", vx, m); ev_v("y", vy, m); ev_v("p", vp, m); ev_v("v", vv, m); ev_end();
}
/* the explainer, judged on monomials: it is bilinear by construction */
static void explainer(uint32_t n) {
  static int32_t vi[MM], vj[MM], vx[MM], vp[MM], vv[MM], a[MAXN], b[MAXN], c[MAXN];
  uint32_t m, k;
  for (m = 0; m < MM; m++) {
    uint32_t i = m < n ? m : rnd(n), j = rnd(n);
    memset(a, 0, n * 4); memset(b, 0, n * 4);
    a[i] = 1; b[j] = 1;
    ref_product(c, a, b, n);
    vi[m] = (int32_t) i; vj[m] = (int32_t) j; vx[m] = 1; vp[m] = -1;
    for (k = 0; k < n; k++) if (c[k]) { vp[m] = vp[m] == -1 ? (int32_t) k : -2; vv[m] = c[k]; }
  }
  ev_open("mono"); ev_s("fam", "explainer"); ev_s("op", "product"); ev_i("n", n);
  ev_v("i", vi, MM); ev_v("j", vj, MM); ev_v("x", vx, MM); ev_v("y", vx, MM); ev_v("p", vp, MM); ev_v("v", vv, MM); ev_end();
}
static void one(const int32_t *a, const int32_t *b, bool raw) {
  static int32_t y[MAXN];
  uint32_t n = O->n;
  call(a, b);
  bool ok = canonical(C, n);
  if (ok) { ref_product(y, a, b, n); ok = memcmp(y, C, n * 4) == 0; }
  if (raw || (!ok && raw_budget)) {
    if (!raw) raw_budget--;
    ev_prod("prod"); ev_v("a", a, n); ev_v("b", b, n); ev_v("c", C, n); ev_end();
  } else if (ok) hx_cases++;
}
/* operand with chosen (weighted) transform */
static void spectral(int32_t *a, uint32_t n, int32_t psi, uint32_t cls) {
  static int32_t v[MAXN];
  fill(v, n, 0, HQ - 1, cls);
  ref_transform(a, v, n, hinv(psi), 2, false, false);
  int64_t s = hinv((int32_t) n);
  for (uint32_t i = 0; i < n; i++) a[i] = (int32_t) (a[i] * s % HQ);
}
/*
 * Operands that drive an intermediate value of the pipeline to a large
 * magnitude (nothing is reduced between the rounds in the red families).
 */
static int32_t hred(int64_t z) { return (int32_t) (3 * (z & 4095) - (z >> 12)); }
static void pipeline(int *fa, int *fc, int *ia, int *ic) {
  int k = O->name[7] - '0';
  *fa = k == 2 || k == 4 ? GS_STD2REV : CT_STD2REV; *fc = k == 5 ? C_MULNTT : C_NTT;
  *ia = k <= 2 ? CT_REV2STD : GS_REV2STD; *ic = k == 5 ? C_NTTMUL : C_NTT;
}
static void fwd_operand(int32_t *a, uint32_t n, int32_t psi, const double *r, bool pos, bool shift, bool pre) {
  for (uint32_t i = 0; i < n; i++) {
    bool up = (r[i] > 0) == pos;
    if (!pre) { a[i] = shift ? (up ? (HQ - 1) / 2 : (HQ + 1) / 2) : up ? HQ - 1 : 0; continue; }
    int32_t w = res((int64_t) hpow(psi, i) * hinv(3)), best = 0, bz = 0;
    if (w > HQ / 2) w -= HQ;
    for (int32_t x = 0; x < HQ; x++) {
      int32_t z = hred((int64_t) (shift && x > HQ / 2 ? x - HQ : x) * w);
      if (x == 0 || (up ? z > bz : z < bz)) { best = x; bz = z; }
    }
    a[i] = best;
  }
}
static void from_spectrum(int32_t *a, const int32_t *v, uint32_t n, int32_t psi) {
  ref_transform(a, v, n, hinv(psi), 2, false, false);
  int64_t s = hinv((int32_t) n);
  for (uint32_t i = 0; i < n; i++) a[i] = (int32_t) (a[i] * s % HQ);
}
static void extremes(uint32_t n, int32_t psi, uint32_t weight) {
  static double r[MAXN], norm[MAXN];
  static int32_t a[MAXN], b[MAXN], va[MAXN], vb[MAXN];
  int fa, fc, ia, ic;
  uint32_t i, k, m, q;
  pipeline(&fa, &fc, &ia, &ic);
  for (int inv = 0; inv < 2; inv++) {
    int alg = inv ? ia : fa, comb = inv ? ic : fc;
    int32_t root = inv ? hinv(psi) : psi;
    uint32_t lg = hlog2(n);
    for (k = 0; k < n; k++) {
      norm[k] = 0;
      adjoint(r, n, alg, comb, root, k, lg);
      for (i = 0; i < n; i++) norm[k] += r[i] < 0 ? -r[i] : r[i];
    }
    for (q = 0; q < 12 + 8 * weight; q++) {
      uint32_t rounds = lg;
      if (q < 12) { for (k = 0, i = 1; i < n; i++) if (norm[i] > norm[k]) k = i; norm[k] = 0; }
      else { k = rnd(n); rounds = 1 + rnd(lg); }
      adjoint(r, n, alg, comb, root, k, rounds);
      for (m = 0; m < 4; m++) {
        if (!inv) {
          fwd_operand(a, n, psi, r, m & 1, m & 2, comb == C_NTT);
          memcpy(b, a, n * 4);
          one(a, b, false);
          if (q < 2 || q >= 12) { fwd_operand(b, n, psi, r, !(m & 1), m & 2, comb == C_NTT); one(a, b, false); }
        } else {
          int32_t i3 = ISRED ? hinv(3) : 1, i9 = res((int64_t) i3 * i3), i27 = res((int64_t) i9 * i3), i243 = res((int64_t) i27 * i9);
          for (i = 0; i < n; i++) {
            bool up = (r[i] > 0) == (m & 1);
            uint32_t f = hrev(i, n);
            if (m & 2) { va[f] = up ? res((int64_t) 4095 * i3) : res((int64_t) (HQ - 1) * i3); vb[f] = up ? i3 : va[f]; }
            else { va[f] = res((int64_t) (up ? HQ - 1 : 0) * (q & 1 ? i27 : i243)); vb[f] = 1; }
          }
          from_spectrum(a, va, n, psi); from_spectrum(b, vb, n, psi);
          one(a, b, false);
        }
      }
    }
  }
}
/* every multiple of one operand: every node of the pipeline takes every residue */
static void multiples(uint32_t step) {
  static int32_t v[MAXN], w[MAXN], t[MAXN], a[MAXN];
  uint32_t n = O->n, i;
  for (int side = 0; side < 2; side++) {
    for (i = 0; i < n; i++) { v[i] = (int32_t) (1 + rnd(HQ - 1)); w[i] = (int32_t) rnd(HQ); }
    ref_product(t, v, w, n);
    for (int32_t c = (int32_t) rnd(step); c < HQ; c += (int32_t) step) {
      for (i = 0; i < n; i++) a[i] = (int32_t) ((int64_t) c * v[i] % HQ);
      if (side) call(w, a); else call(a, w);
      bool ok = true;
      for (i = 0; i < n && ok; i++) ok = C[i] == (int32_t) ((int64_t) c * t[i] % HQ);
      if (ok) hx_cases++;
      else if (raw_budget) { raw_budget--; ev_prod("prod"); ev_v("a", side ? w : a, n); ev_v("b", side ? a : w, n); ev_v("c", C, n); ev_end(); }
    }
  }
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]), unit = 0;
  uint64_t seed = strtoull(argv[2], NULL, 10);
  int32_t *base = aligned_alloc(64, 256 * 1024);
  static int32_t a[MAXN], b[MAXN];
  alarm(hx_limit());
  for (int k = 0; k < NPROD; k++) {
    uint32_t n, c, i;
    O = &prod_ops[k]; n = O->n;
    if (unit++ % nparts != part) continue;
    hx_seed(seed ^ hx_hash(O->name) ^ n);
    WHERE("%s product n=%u %s", FAMNAME, n, O->name);
    if (k % 5 == 0) explainer(n);
    A = base; B = base + 8192; C = base + 16384;
    monomials(n == 16 ? 512 : n);
    for (c = 0; c < (n == 16 ? 4000 : n == 256 ? 1500 : n == 512 ? 800 : 400) * weight; c++) {
      if (c % 8 == 0) { A = base + rnd(16); B = base + 8192 + rnd(16); C = base + 16384 + rnd(16); }
      uint32_t ca = c < 144 ? c / 12 : rnd(V_NCLASS), cb = c < 144 ? c % 12 : rnd(V_NCLASS);
      int32_t psi = param_psi(n);
      if (c >= 144 && rnd(3) == 0) spectral(a, n, psi, ca); else fill(a, n, 0, HQ - 1, ca);
      if (c >= 144 && rnd(3) == 0) spectral(b, n, psi, cb); else fill(b, n, 0, HQ - 1, cb);
      one(a, b, c < (n <= 256 ? 6 : 3));
      /* same arguments again, swapped: same result whatever happened before */
      if (c % 64 == 0) { one(b, a, false); one(a, a, false); }
    }
    extremes(n, param_psi(n), weight);
    multiples(FAM == 2 && n > 16 ? n * n / 512 : 1);
    /* every coefficient value, in both operands */
    for (int32_t v = 0; v < HQ; v += (int32_t) n) {
      for (i = 0; i < n; i++) { a[i] = (v + (int32_t) i) % HQ; b[i] = i == 0; }
      one(a, b, false); one(b, a, false);
    }
  }
  hx_finish();
  return 0;
}
