/*
 * Common part of the recording drivers. A driver calls the library through
 * its public headers and writes what it observed, one JSON object per line.
 * It contains no verdict: the specification (../spec) judges the records.
 */
#ifndef HX_H
#define HX_H

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <inttypes.h>
#include <unistd.h>
#include <sys/mman.h>

#define HQ 12289

/* ---- random numbers (splitmix64), seeded by the caller ---- */
static uint64_t hx_state = 1;
static uint64_t rnd64(void) {
  uint64_t z = (hx_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint32_t rnd(uint32_t k) { return (uint32_t) (rnd64() % k); }
static int64_t rnd_in(int64_t lo, int64_t hi) { return lo + (int64_t) (rnd64() % (uint64_t) (hi - lo + 1)); }
static void hx_seed(uint64_t s) { hx_state = s * 0x2545F4914F6CDD1Dull + 77; (void) rnd64(); }
static inline uint64_t hx_hash(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (uint8_t) *s++; h *= 1099511628211ull; } return h; }

/* ---- residues ---- */
static inline int32_t res(int64_t x) { x %= HQ; return (int32_t) (x < 0 ? x + HQ : x); }
static inline int32_t hpow(int32_t b, uint32_t e) {
  int64_t y = 1, x = res(b);
  for (; e; e >>= 1) { if (e & 1) y = y * x % HQ; x = x * x % HQ; }
  return (int32_t) y;
}
static inline int32_t hinv(int32_t x) { return hpow(x, HQ - 2); }
static inline uint32_t hlog2(uint32_t n) { uint32_t k = 0; while (n > 1) { n >>= 1; k++; } return k; }
static inline uint32_t hrev(uint32_t i, uint32_t n) {
  uint32_t x = 0;
  for (; n > 1; n >>= 1) { x = (x << 1) | (i & 1); i >>= 1; }
  return x;
}
/* primitive 2n-th root of unity: 7 has order 2048, 41 has order 4096 (data/primitive-roots-4096.txt) */
static inline int32_t hroot(uint32_t n, uint32_t odd) { /* psi with psi^n = -1 */
  return hpow(41, (4096 / (2 * n)) * (odd | 1));
}

/* ---- output ---- */
static FILE *hx_out;
static uint64_t hx_calls;      /* calls of library functions */
static uint64_t hx_cases;      /* of which explained by a compressed record */
static uint64_t hx_events;
static inline void ev_open(const char *k) { fprintf(hx_out, "{\"k\":\"%s\"", k); hx_events++; }
static inline void ev_s(const char *f, const char *v) { fprintf(hx_out, ",\"%s\":\"%s\"", f, v); }
static inline void ev_i(const char *f, int64_t v) { fprintf(hx_out, ",\"%s\":%" PRId64, f, v); }
static inline void ev_v(const char *f, const int32_t *v, uint32_t n) {
  fprintf(hx_out, ",\"%s\":[", f);
  for (uint32_t i = 0; i < n; i++) fprintf(hx_out, i ? ",%" PRId32 : "%" PRId32, v[i]);
  fputc(']', hx_out);
}
/* 64bit integers as three limbs: x = l0*2^44 + l1*2^22 + l2 (l0 signed) */
static inline void ev_w(const char *f, int64_t x) {
  fprintf(hx_out, ",\"%s\":[%" PRId64 ",%" PRId64 ",%" PRId64 "]", f, x >> 44, (x >> 22) & 0x3FFFFF, x & 0x3FFFFF);
}
static inline void ev_wv(const char *f, const int64_t *v, uint32_t n) {
  fprintf(hx_out, ",\"%s\":[", f);
  for (uint32_t i = 0; i < n; i++) fprintf(hx_out, "%s[%" PRId64 ",%" PRId64 ",%" PRId64 "]", i ? "," : "", v[i] >> 44, (v[i] >> 22) & 0x3FFFFF, v[i] & 0x3FFFFF);
  fputc(']', hx_out);
}
static inline void ev_end(void) { fputs("}\n", hx_out); }

static unsigned hx_limit(void) { const char *s = getenv("HX_ALARM"); return s ? (unsigned) atoi(s) : 600; }
static void hx_init(const char *path) {
  hx_out = fopen(path, "w");
  if (!hx_out) { perror(path); exit(3); }
  setvbuf(hx_out, NULL, _IOFBF, 1 << 20);
}
/* counts for the evidence file: not judged */
/* called by code built to report conversions to a signed type that change the value */
extern uint64_t hx_lossy;
uint64_t hx_lossy __attribute__((weak));
extern void __ubsan_handle_implicit_conversion_minimal(void);
__attribute__((weak)) void __ubsan_handle_implicit_conversion_minimal(void) { hx_lossy++; }
static bool hx_done;
static void hx_finish(void) {
  hx_done = true;
  fclose(hx_out);
  if (hx_lossy) printf("LOSSY %" PRIu64 "\n", hx_lossy);
  printf("COUNTS calls=%" PRIu64 " compressed=%" PRIu64 " events=%" PRIu64 "\n", hx_calls, hx_cases, hx_events);
}
/* what is being called, for the report if the driver dies there */
static char hx_where[256];
#define WHERE(...) snprintf(hx_where, sizeof hx_where, __VA_ARGS__)

#include <signal.h>
static int hx_fd = 1;   /* standard output of the driver, also while the library's is redirected */
static void hx_crash(int sig) {
  /* async-signal-unsafe, but the process is lost anyway */
  dprintf(hx_fd, "CRASH signal=%d in %s\n", sig, hx_where);
  if (hx_out) fflush(hx_out);
  _exit(40);
}
/* the library ended the program */
static pid_t hx_pid;
static void hx_gone(void) {
  if (hx_done || getpid() != hx_pid || !hx_where[0]) return;
  dprintf(hx_fd, "CRASH signal=0 in %s\n", hx_where);
}
static void hx_catch(void) {
  hx_fd = dup(1); hx_pid = getpid(); atexit(hx_gone);
  static char stk[65536];
  stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = hx_crash;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
  sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
}

/* in a child: what a signal does is its own affair */
static inline void hx_uncatch(void) {
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGALRM, SIG_DFL);
}

/* ---- test vectors ---- */
/* special values of the interval [lo, hi] */
static int32_t special(int32_t lo, int32_t hi) {
  static const int32_t s[] = { 0, 1, 2, -1, -2, 6143, 6144, 6145, 6146, -6144, -6143, -6145, 12286, 12287, 12288, 4095, 4096, 8191, 8192, 8193, -4096 };
  for (;;) {
    uint32_t k = rnd(25);
    int32_t v = k == 21 ? lo : k == 22 ? hi : k == 23 ? lo + 1 : k == 24 ? hi - 1 : s[k];
    if (lo <= v && v <= hi) return v;
  }
}
enum { V_RANDOM, V_SPECIAL, V_MAX, V_MIN, V_ALT, V_TWO, V_SPARSE, V_MIXED, V_STEP, V_RAMP, V_PERIOD, V_HALF, V_NCLASS };
static void fill(int32_t *v, uint32_t n, int32_t lo, int32_t hi, uint32_t cls) {
  uint32_t i, m, p = 1u << rnd(hlog2(n) + 1);
  int32_t x = special(lo, hi), y = special(lo, hi);
  for (i = 0; i < n; i++) v[i] = (int32_t) rnd_in(lo, hi);
  switch (cls % V_NCLASS) {
  case V_RANDOM: break;
  case V_SPECIAL: for (i = 0; i < n; i++) v[i] = special(lo, hi); break;
  case V_MAX: for (i = 0; i < n; i++) v[i] = hi; break;
  case V_MIN: for (i = 0; i < n; i++) v[i] = lo; break;
  case V_ALT: for (i = 0; i < n; i++) v[i] = (i / p) & 1 ? lo : hi; break;
  case V_TWO: for (i = 0; i < n; i++) v[i] = rnd(2) ? x : y; break;
  case V_SPARSE: m = 1 + rnd(4); for (i = 0; i < n; i++) v[i] = 0; while (m--) v[rnd(n)] = special(lo, hi); break;
  case V_MIXED: for (i = 0; i < n; i++) if (rnd(2)) v[i] = special(lo, hi); break;
  case V_STEP: m = rnd(n + 1); for (i = 0; i < n; i++) v[i] = i < m ? x : y; break;
  case V_RAMP: for (i = 0; i < n; i++) v[i] = (int32_t) (lo + ((int64_t) i * ((int64_t) hi - lo)) / n); break;
  case V_PERIOD: for (i = p; i < n; i++) v[i] = v[i % p]; break;
  case V_HALF: for (i = 0; i < n; i++) if (rnd(2)) v[i] = (int32_t) (((int64_t) lo + hi) / 2); break;
  }
}
#endif
