/*
 * The four families of implementations behind one interface.
 * FAM: 1 plain (ntt.h), 2 naive (naive_ntt.h), 3 red (ntt_red.h), 4 asm (ntt_asm.h)
 */
#ifndef FAM_H
#define FAM_H
#include "hx.h"

#if FAM == 1
#define FAMNAME "plain"
#include "ntt.h"
#include "ntt16.h"
#include "ntt256.h"
#include "ntt512.h"
#include "ntt1024.h"
typedef uint16_t tab_t;
#define G(f) static void g_##f(int32_t *a, uint32_t n, const tab_t *p) { f(a, n, p); }
#define W(pre, N, suf) static void w_##pre##N##suf(int32_t *a) { pre##N##suf(a); }
#define PARAM(N, x) ntt##N##_##x
#define PNAME(N, k) ntt##N##_product##k
#elif FAM == 2
#define FAMNAME "naive"
#include "naive_ntt.h"
#include "naive_ntt16.h"
#include "naive_ntt256.h"
#include "naive_ntt512.h"
#include "naive_ntt1024.h"
typedef uint16_t tab_t;
#define G(f) static void g_##f(int32_t *a, uint32_t n, const tab_t *p) { f##_naive(a, n, p, HQ); }
#define W(pre, N, suf) static void w_##pre##N##suf(int32_t *a) { naive_##pre##N##suf(a); }
#define PARAM(N, x) ntt##N##_##x
#define PNAME(N, k) naive_ntt##N##_product##k
#elif FAM == 3
#define FAMNAME "red"
#include "ntt_red.h"
#ifndef BENCH            /* the copy given to the verifier has one size */
#include "ntt_red16.h"
#include "ntt_red256.h"
#include "ntt_red512.h"
#endif
#include "ntt_red1024.h"
typedef int16_t tab_t;
#define PARAM(N, x) ntt_red##N##_##x
#define PNAME(N, k) ntt_red##N##_product##k
#define SUF
#elif FAM == 4
#define FAMNAME "asm"
#include "ntt_asm.h"
#include "ntt_red_asm16.h"
#include "ntt_red_asm256.h"
#include "ntt_red_asm512.h"
#include "ntt_red_asm1024.h"
typedef int16_t tab_t;
#define PARAM(N, x) ntt_red##N##_##x
#define PNAME(N, k) ntt_red##N##_product##k##_asm
#endif

#define ISRED (FAM >= 3)
/* documented input range of the transforms */
#if ISRED
#define INLO (-21499)
#define INHI 21499
#else
#define INLO 0
#define INHI (HQ - 1)
#endif

#if FAM == 3
#define G(pre, rest) static void g_##pre##_##rest(int32_t *a, uint32_t n, const tab_t *p) { pre##_red_##rest(a, n, p); }
#define W(pre, N, suf) static void w_##pre##N##suf(int32_t *a) { pre##_red##N##suf(a); }
G(ntt, ct_rev2std) G(mulntt, ct_rev2std) G(ntt, ct_std2rev) G(mulntt, ct_std2rev)
G(ntt, gs_rev2std) G(nttmul, gs_rev2std) G(ntt, gs_std2rev) G(nttmul, gs_std2rev)
#elif FAM == 4
#define G(pre, rest) static void g_##pre##_##rest(int32_t *a, uint32_t n, const tab_t *p) { pre##_red_##rest##_asm(a, n, p); }
#define W(pre, N, suf) static void w_##pre##N##suf(int32_t *a) { pre##_red##N##suf##_asm(a); }
G(ntt, ct_rev2std) G(mulntt, ct_rev2std) G(ntt, ct_std2rev) G(mulntt, ct_std2rev)
G(ntt, gs_rev2std) G(nttmul, gs_rev2std) G(ntt, gs_std2rev) G(nttmul, gs_std2rev)
#else
G(ntt_ct_rev2std) G(mulntt_ct_rev2std) G(ntt_ct_std2rev) G(mulntt_ct_std2rev)
G(ntt_gs_rev2std) G(nttmul_gs_rev2std) G(ntt_gs_std2rev) G(nttmul_gs_std2rev)
#if FAM == 1
G(ntt_ct_rev2std_v1)
#endif
#endif

typedef void (*gen_t)(int32_t *, uint32_t, const tab_t *);
typedef void (*wrap_t)(int32_t *);
typedef void (*prod_t)(int32_t *, int32_t *, int32_t *);

enum { CT_REV2STD, CT_STD2REV, GS_REV2STD, GS_STD2REV };
static const char *const alg_name[] = { "ct_rev2std", "ct_std2rev", "gs_rev2std", "gs_std2rev" };
static const bool alg_inrev[] = { true, false, true, false };
static const bool alg_outrev[] = { false, true, false, true };
static const bool alg_revtab[] = { false, true, true, false };
enum { C_NTT, C_MULNTT, C_NTTMUL };
static const char *const comb_name[] = { "ntt", "mulntt", "nttmul" };

typedef struct { const char *name; int alg, comb; bool v1; gen_t f; } gen_op;
static const gen_op gen_ops[] = {
  { "ntt_ct_rev2std", CT_REV2STD, C_NTT, false, g_ntt_ct_rev2std },
  { "mulntt_ct_rev2std", CT_REV2STD, C_MULNTT, false, g_mulntt_ct_rev2std },
  { "ntt_ct_std2rev", CT_STD2REV, C_NTT, false, g_ntt_ct_std2rev },
  { "mulntt_ct_std2rev", CT_STD2REV, C_MULNTT, false, g_mulntt_ct_std2rev },
  { "ntt_gs_rev2std", GS_REV2STD, C_NTT, false, g_ntt_gs_rev2std },
  { "nttmul_gs_rev2std", GS_REV2STD, C_NTTMUL, false, g_nttmul_gs_rev2std },
  { "ntt_gs_std2rev", GS_STD2REV, C_NTT, false, g_ntt_gs_std2rev },
  { "nttmul_gs_std2rev", GS_STD2REV, C_NTTMUL, false, g_nttmul_gs_std2rev },
#if FAM == 1
  { "ntt_ct_rev2std_v1", CT_REV2STD, C_NTT, true, g_ntt_ct_rev2std_v1 },
#endif
};
#define NGEN ((int) (sizeof gen_ops / sizeof gen_ops[0]))

/* size-specialised wrappers */
#define WALL(N) \
  W(ntt, N, _ct_rev2std) W(ntt, N, _gs_rev2std) W(ntt, N, _ct_std2rev) W(ntt, N, _gs_std2rev) \
  W(intt, N, _ct_rev2std) W(intt, N, _gs_rev2std) W(intt, N, _ct_std2rev) W(intt, N, _gs_std2rev) \
  W(mulntt, N, _ct_rev2std) W(mulntt, N, _ct_std2rev) W(inttmul, N, _gs_rev2std) W(inttmul, N, _gs_std2rev)
#ifndef BENCH
WALL(16) WALL(256) WALL(512)
#endif
WALL(1024)

typedef struct { const char *name; uint32_t n; int alg, comb; bool inv; wrap_t f; } wrap_op;
#define WROW(N) \
  { "ntt" #N "_ct_rev2std", N, CT_REV2STD, C_NTT, false, w_ntt##N##_ct_rev2std }, \
  { "ntt" #N "_gs_rev2std", N, GS_REV2STD, C_NTT, false, w_ntt##N##_gs_rev2std }, \
  { "ntt" #N "_ct_std2rev", N, CT_STD2REV, C_NTT, false, w_ntt##N##_ct_std2rev }, \
  { "ntt" #N "_gs_std2rev", N, GS_STD2REV, C_NTT, false, w_ntt##N##_gs_std2rev }, \
  { "intt" #N "_ct_rev2std", N, CT_REV2STD, C_NTT, true, w_intt##N##_ct_rev2std }, \
  { "intt" #N "_gs_rev2std", N, GS_REV2STD, C_NTT, true, w_intt##N##_gs_rev2std }, \
  { "intt" #N "_ct_std2rev", N, CT_STD2REV, C_NTT, true, w_intt##N##_ct_std2rev }, \
  { "intt" #N "_gs_std2rev", N, GS_STD2REV, C_NTT, true, w_intt##N##_gs_std2rev }, \
  { "mulntt" #N "_ct_rev2std", N, CT_REV2STD, C_MULNTT, false, w_mulntt##N##_ct_rev2std }, \
  { "mulntt" #N "_ct_std2rev", N, CT_STD2REV, C_MULNTT, false, w_mulntt##N##_ct_std2rev }, \
  { "inttmul" #N "_gs_rev2std", N, GS_REV2STD, C_NTTMUL, true, w_inttmul##N##_gs_rev2std }, \
  { "inttmul" #N "_gs_std2rev", N, GS_STD2REV, C_NTTMUL, true, w_inttmul##N##_gs_std2rev }
#ifdef BENCH
static const wrap_op wrap_ops[] = { WROW(1024) };
#else
static const wrap_op wrap_ops[] = { WROW(16), WROW(256), WROW(512), WROW(1024) };
#endif
#define NWRAP ((int) (sizeof wrap_ops / sizeof wrap_ops[0]))
static inline int32_t param_psi(uint32_t n) {
#ifdef BENCH
  return PARAM(1024, psi);
#else
  return n == 16 ? PARAM(16, psi) : n == 256 ? PARAM(256, psi) : n == 512 ? PARAM(512, psi) : PARAM(1024, psi);
#endif
}

typedef struct { const char *name; uint32_t n; prod_t f; } prod_op;
#define PROW(N) { "product1", N, PNAME(N, 1) }, { "product2", N, PNAME(N, 2) }, { "product3", N, PNAME(N, 3) }, { "product4", N, PNAME(N, 4) }, { "product5", N, PNAME(N, 5) }
#ifdef BENCH
static const prod_op prod_ops[] = { PROW(1024) };
#else
static const prod_op prod_ops[] = { PROW(16), PROW(256), PROW(512), PROW(1024) };
#endif
#define NPROD ((int) (sizeof prod_ops / sizeof prod_ops[0]))

/* ---- tables, built from the layout documented in the headers ---- */
static inline int32_t tabval(int32_t r) { /* table entry for the residue r */
#if ISRED
  r = res((int64_t) r * hinv(3));
  return r > (HQ - 1) / 2 ? r - HQ : r;
#else
  return r;
#endif
}
static inline uint32_t tw_exp(int alg, int comb, uint32_t n, uint32_t t, uint32_t j) {
  uint32_t jj = alg_revtab[alg] ? hrev(j, t) : j, d = n / (2 * t);
  return (comb == C_NTT ? d * 2 * jj : d * (1 + 2 * jj)) % (2 * n);
}
static inline void build_tab(tab_t *p, const gen_op *o, uint32_t n, int32_t root) {
  uint32_t t, j;
  if (o->v1) { for (j = 0; j < n; j++) p[j] = (tab_t) hpow(root, j); return; }
  p[0] = 0;
  for (t = 1; t < n; t <<= 1)
    for (j = 0; j < t; j++) p[t + j] = (tab_t) tabval(hpow(root, tw_exp(o->alg, o->comb, n, t, j)));
}
/*
 * Inputs that drive one intermediate or final value to a large magnitude:
 * signs of the real-valued linear map (residues are not reduced between the
 * rounds of the red families). Only a choice of inputs.
 */
/* -w/4096 for the factor w of round t at butterfly s */
static inline double adj_w(uint32_t n, int alg, int comb, int32_t root, uint32_t t, uint32_t d, uint32_t s) {
  static uint32_t cn; static int32_t croot; static double cw[8192];
  if (cn != n || croot != root) {
    int64_t x = hinv(3);
    for (uint32_t e = 0; e < 2 * n; e++) { cw[e] = -(double) (x > HQ / 2 ? x - HQ : x) / 4096.0; x = x * root % HQ; }
    cn = n; croot = root;
  }
  return cw[tw_exp(alg, comb, n, t, (alg == CT_REV2STD || alg == GS_STD2REV) ? s % t : s / (2 * d))];
}
static inline bool adj_ct(int alg) { return alg == CT_REV2STD || alg == CT_STD2REV; }
static inline uint32_t adj_t(int alg, uint32_t lg, uint32_t m) { return adj_ct(alg) ? 1u << m : 1u << (lg - 1 - m); }
static inline uint32_t adj_d(int alg, uint32_t n, uint32_t t) { return (alg == CT_REV2STD || alg == GS_STD2REV) ? t : n / (2 * t); }
static inline void adjoint(double *r, uint32_t n, int alg, int comb, int32_t root, uint32_t k, uint32_t rounds) {
  uint32_t lg = hlog2(n), m, s;
  for (s = 0; s < n; s++) r[s] = 0;
  r[k] = 1;
  for (m = rounds; m-- > 0;) {
    uint32_t t = adj_t(alg, lg, m), d = adj_d(alg, n, t);
    for (s = 0; s < n; s++) if (s % (2 * d) < d) {
      double w = adj_w(n, alg, comb, root, t, d, s), u = r[s], v = r[s + d];
      if (adj_ct(alg)) { r[s] = u + v; r[s + d] = (u - v) * w; }
      else { r[s] = u + v * w; r[s + d] = u - v * w; }
    }
  }
}
/*
 * Where the largest values can occur: for each round m, the element (at the
 * end of the round), the element whose multiplicand, and the element whose
 * product is the largest over all inputs of magnitude 1.  Each input reaches
 * each node on one path only, so that the norms add up.
 */
static inline void peaks(uint32_t n, int alg, int comb, int32_t root, uint32_t at[12][3]) {
  static double v[4096];
  uint32_t lg = hlog2(n), m, s;
  for (s = 0; s < n; s++) v[s] = 1;
  for (m = 0; m < lg; m++) {
    uint32_t t = adj_t(alg, lg, m), d = adj_d(alg, n, t);
    double best[3] = { 0, 0, 0 };
    for (s = 0; s < n; s++) if (s % (2 * d) < d) {
      double w = adj_w(n, alg, comb, root, t, d, s), x, z;
      if (w < 0) w = -w;
      if (adj_ct(alg)) { x = v[s + d]; z = x * w; v[s] += z; v[s + d] = v[s]; }
      else { x = v[s] + v[s + d]; z = x * w; v[s] = x; v[s + d] = z; }
      if (x > best[1]) { best[1] = x; at[m][1] = s + d; }
      if (z > best[2]) { best[2] = z; at[m][2] = s + d; }
      if (v[s] > best[0]) { best[0] = v[s]; at[m][0] = s; }
      if (v[s + d] > best[0]) { best[0] = v[s + d]; at[m][0] = s + d; }
    }
  }
}
#endif
