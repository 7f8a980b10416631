/*
 * Dump of one generated table file, compiled with it.
 * -DN=<size> -DRED=<0|1> -DMODE=<0 tables, 1 bit-reversal pairs, 2 pairs inside of the tables>
 * usage: tab_dump PSI ORIGIN RAW
 * RAW = 1: every entry is written; 0: a table that is explained by
 * geometric progressions is written as their first terms and ratios.
 */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#define STR_(x) #x
#define STR(x) STR_(x)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if MODE == 1
#include STR(CAT(CAT(bitrev, N), _table.h))
#define PAIRS CAT(bitrev, N)
#define NP CAT(CAT(BITREV, N), _NPAIRS)
#else
#if RED
#define PRE CAT(CAT(ntt_red, N), _)
#include STR(CAT(CAT(ntt_red, N), _tables.h))
#else
#define PRE CAT(CAT(ntt, N), _)
#include STR(CAT(CAT(ntt, N), _tables.h))
#endif
#define PAIRS CAT(PRE, bitrev)
#define NP CAT(CAT(BITREV, N), _NPAIRS)
#endif
/* tables that are written but not declared; a generator need not write them */
#if MODE != 1
#if RED && !defined BENCH
extern const int16_t CAT(PRE, psi_powers_rev)[N] __attribute__((weak));
#elif !RED
extern const uint16_t CAT(PRE, inv_psi_powers_rev)[N] __attribute__((weak));
#endif
#endif
#define HQ 12289
static int32_t res(int64_t x) { x %= HQ; return (int32_t) (x < 0 ? x + HQ : x); }
static int32_t inv(int64_t x) { int64_t y = 1, e = HQ - 2; x = res(x); for (; e; e >>= 1) { if (e & 1) y = y * x % HQ; x = x * x % HQ; } return (int32_t) y; }
static uint32_t rev(uint32_t i, uint32_t n) { uint32_t x = 0; for (; n > 1; n >>= 1) { x = (x << 1) | (i & 1); i >>= 1; } return x; }
static const char *origin; static int psi, raw;
static void head(const char *k, const char *name) {
  printf("{\"k\":\"%s\",\"op\":\"%s\",\"red\":%d,\"name\":\"%s\",\"n\":%d,\"root\":%d", k, origin, RED, name, N, psi);
}
#if MODE != 1
static int32_t rep(int64_t r) { /* representative written in tables */
  int32_t x = res(r);
  return RED && x > HQ / 2 ? x - HQ : x;
}
static void row(const char *name, const int32_t *v, uint32_t len, bool blocks, bool isrev) {
  int32_t f[32], g[32]; int m = 0; bool ok = len == N && !raw;
  if (ok && !blocks) {
    f[0] = v[0]; g[0] = res((int64_t) v[1] * inv(v[0])); m = 1;
    int64_t y = res(f[0]);
    for (uint32_t i = 0; i < N; i++) { if (v[i] != rep(y)) ok = false; y = y * g[0] % HQ; }
  } else if (ok) {
    for (uint32_t t = 1; t < N; t <<= 1) {
      f[m] = v[t]; g[m] = t > 1 ? res((int64_t) v[t + (isrev ? t / 2 : 1)] * inv(v[t])) : 0;
      int64_t y = res(f[m]);
      for (uint32_t j = 0; j < t; j++) { if (v[t + (isrev ? rev(j, t) : j)] != rep(y)) ok = false; y = y * g[m] % HQ; }
      m++;
    }
  }
  if (ok) {
    head("tabg", name); printf(",\"z\":%d,\"f\":[", v[0]);
    for (int i = 0; i < m; i++) printf(i ? ",%d" : "%d", f[i]);
    printf("],\"g\":[");
    for (int i = 0; i < m; i++) printf(i ? ",%d" : "%d", g[i]);
    printf("]}\n");
  } else {
    head("tab", name); printf(",\"v\":[");
    for (uint32_t i = 0; i < len; i++) printf(i ? ",%d" : "%d", v[i]);
    printf("]}\n");
  }
}
#define ROW(t, blocks, isrev) do { static int32_t v[N]; uint32_t len = sizeof CAT(PRE, t) / sizeof CAT(PRE, t)[0]; \
  for (uint32_t i = 0; i < len && i < N; i++) v[i] = CAT(PRE, t)[i]; row(#t, v, len, blocks, isrev); } while (0)
#define PAR(p) do { head("par", #p); printf(",\"v\":%d}\n", CAT(PRE, p)); } while (0)
#endif
int main(int argc, char **argv) {
  psi = atoi(argv[1]); origin = argv[2]; raw = atoi(argv[3]);
#if MODE != 1
  PAR(psi); PAR(omega); PAR(inv_psi); PAR(inv_omega); PAR(inv_n);
#if RED
  PAR(inv_k);
#ifdef BENCH
  PAR(rescale);
#else
  PAR(rescale8); PAR(rescale6);
  ROW(scaled_inv_psi_powers_var, false, false);
#endif
#endif
  ROW(psi_powers, false, false); ROW(inv_psi_powers, false, false); ROW(scaled_inv_psi_powers, false, false);
  ROW(omega_powers, true, false); ROW(omega_powers_rev, true, true);
  ROW(inv_omega_powers, true, false); ROW(inv_omega_powers_rev, true, true);
  ROW(mixed_powers, true, false); ROW(mixed_powers_rev, true, true);
  ROW(inv_mixed_powers, true, false); ROW(inv_mixed_powers_rev, true, true);
#if RED && !defined BENCH
  if (&CAT(PRE, psi_powers_rev)[0] != NULL) ROW(psi_powers_rev, true, true);
#elif !RED
  if (&CAT(PRE, inv_psi_powers_rev)[0] != NULL) ROW(inv_psi_powers_rev, true, true);
#endif
#endif
#if MODE != 0
  printf("{\"k\":\"pairs\",\"op\":\"%s\",\"n\":%d,\"np\":%d,\"p\":[", origin, N, NP);
  for (int i = 0; i < NP; i++) printf("%s[%d,%d]", i ? "," : "", PAIRS[i][0], PAIRS[i][1]);
  printf("]}\n");
#endif
  return 0;
}
