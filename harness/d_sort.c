/* sort: usage d_sort OUT SEED WEIGHT PART NPARTS */
#include "hx.h"
#include "sort.h"
#include <pthread.h>
static uint64_t raw_budget = 40;
static void ev_u(const char *f, const uint64_t *v, uint32_t n) {
  fprintf(hx_out, ",\"%s\":[", f);
  for (uint32_t i = 0; i < n; i++) fprintf(hx_out, "%s[%" PRIu64 ",%" PRIu64 ",%" PRIu64 "]", i ? "," : "", v[i] >> 44, (v[i] >> 22) & 0x3FFFFF, v[i] & 0x3FFFFF);
  fputc(']', hx_out);
}
static int cmp(const void *a, const void *b) { uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b; return x < y ? -1 : x > y; }
#define MX 20000
static uint64_t *buf; /* ended by a guard page, preceded by canaries */
static uint64_t *top;
static void one(const uint64_t *in, uint32_t n, bool raw) {
  static uint64_t e[MX];
  buf = top - n;
  memcpy(buf, in, n * 8);
  for (int i = 1; i <= 16; i++) buf[-i] = 0x5555AAAA5555AAAAull * (uint64_t) i;
  alarm(20);
  sort(buf, n); hx_calls++;
  memcpy(e, in, n * 8);
  qsort(e, n, 8, cmp);                     /* explainer, see ref.h: only selects what is written */
  bool ok = memcmp(e, buf, n * 8) == 0;
  for (int i = 1; i <= 16; i++) if (buf[-i] != 0x5555AAAA5555AAAAull * (uint64_t) i) { ev_open("mem"); ev_s("op", "sort"); ev_i("touched", 1); ev_end(); }
  if (raw || (!ok && raw_budget)) {
    if (!raw) raw_budget--;
    uint32_t m = n;
    if (n > 800) { /* a witness: two neighbours, and the number of occurrences of a value before and after */
      uint32_t i, k = 0, ci = 0, co = 0;
      for (i = 0; i + 1 < n && buf[i] <= buf[i + 1]; i++);
      if (i + 1 >= n) i = 0;
      for (k = 0; k < n && e[k] == buf[k]; k++);
      for (uint32_t t = 0; t < n; t++) { ci += in[t] == e[k % n]; co += buf[t] == e[k % n]; }
      ev_open("sortw"); ev_s("op", "sort"); ev_i("n", n); ev_u("x", buf + i, 1); ev_u("y", buf + i + 1, 1); ev_i("before", ci); ev_i("after", co); ev_end();
      return;
    }
    ev_open("sort"); ev_s("op", "sort"); ev_u("in", in, m); ev_u("out", buf, m); ev_end();
  } else if (ok) hx_cases++;
}
/*
 * Long arrays, sorted by a thread with a stack of STACK bytes. In the first two
 * the element in the middle is the largest (smallest) of every segment that a
 * quicksort by the middle element comes to.
 */
#define STACK (1 << 20)
#define LONG 16777300
static uint64_t lbuf[LONG + 32];
static uint32_t llen;
static void *body(void *p) { (void) p; sort(lbuf + 16, llen); return NULL; }
static void longone(uint32_t n, int how) {
  static uint64_t e[LONG];
  uint64_t *a = lbuf + 16;
  uint32_t m, i;
  WHERE("sort, %u elements, kind %d", n, how);
  switch (how) {
  case 0: for (m = 1; m <= n; m++) { uint64_t x = a[0], y = a[m / 2]; if (m < 3) a[m - 1] = m; else { a[0] = y; a[m / 2] = m; a[m - 1] = x; } } break;
  case 1: for (m = 1; m <= n; m++) { uint64_t *b = a + n - m; if (m < 3) b[0] = n - m; else { b[0] = b[m / 2]; b[m / 2] = n - m; } } break;
  case 2: for (i = 0; i < n; i++) a[i] = rnd64(); break;
  case 3: for (i = 0; i < n; i++) a[i] = i; break;
  case 4: for (i = 0; i < n; i++) a[i] = n - i; break;
  case 5: for (i = 0; i < n; i++) a[i] = rnd(7); break;
  default: for (i = 0; i < n; i++) a[i] = 42;
  }
  for (i = 0; i < 16; i++) lbuf[i] = a[n + i] = 0x5555AAAA5555AAAAull;
  memcpy(e, a, n * 8);
  llen = n;
  pthread_t t; pthread_attr_t at;
  pthread_attr_init(&at); pthread_attr_setstacksize(&at, STACK);
  alarm(60);
  if (pthread_create(&t, &at, body, NULL) || pthread_join(t, NULL)) _exit(3);
  hx_calls++;
  for (i = 0; i < 16; i++) if (lbuf[i] != 0x5555AAAA5555AAAAull || a[n + i] != lbuf[i]) { ev_open("mem"); ev_s("op", "sort"); ev_i("touched", 1); ev_end(); break; }
  uint64_t *in = e;
  static uint64_t srt[LONG];
  memcpy(srt, in, n * 8);
  qsort(srt, n, 8, cmp);
  uint32_t k = 0, ci = 0, co = 0, q = 0;
  for (k = 0; k < n && srt[k] == a[k]; k++);
  for (q = 0; q + 1 < n && a[q] <= a[q + 1]; q++);
  if (q + 1 >= n) q = 0;
  for (i = 0; i < n; i++) { ci += in[i] == srt[k % n]; co += a[i] == srt[k % n]; }
  ev_open("sortw"); ev_s("op", "sort"); ev_i("n", n); ev_u("x", a + q, 1); ev_u("y", a + q + 1, 1); ev_i("before", ci); ev_i("after", co); ev_end();
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]);
  hx_seed(strtoull(argv[2], NULL, 10) * 64 + part);
  size_t sz = (MX * 8 + 8191) & ~4095ul;
  char *m = mmap(NULL, sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m + sz, 4096, PROT_NONE);
  top = (uint64_t *) (m + sz);
  static uint64_t v[MX];
  /* all arrays of length <= 12 over {0,1}, of length <= 8 over {0..3}, and all permutations of up to 10 elements' prefix classes */
  WHERE("sort, small arrays");
  for (uint32_t base = 2; base <= 4; base++) {
    uint32_t len = base == 2 ? 15 : base == 3 ? 11 : 9;
    for (uint32_t n = 0; n <= len; n++) {
      uint64_t tot = 1; for (uint32_t i = 0; i < n; i++) tot *= base;
      for (uint64_t c = part; c < tot; c += nparts) {
        uint64_t x = c; for (uint32_t i = 0; i < n; i++) { v[i] = x % base; x /= base; }
        one(v, n, c < 3 && n > 2);
      }
    }
  }
  WHERE("sort, random arrays");
  for (uint32_t r = 0; r < 20000 * weight; r++) {
    uint32_t n = r % 10 ? rnd(60) : r % 100 ? rnd(800) : rnd(MX - 32), i, cls = rnd(10);
    uint64_t k = 1 + rnd(n / 2 + 2);
    for (i = 0; i < n; i++)
      switch (cls) {
      case 0: v[i] = rnd64(); break;
      case 1: v[i] = rnd64() >> rnd(64); break;
      case 2: v[i] = rnd64() % k; break;
      case 3: v[i] = i; break;
      case 4: v[i] = n - i; break;
      case 5: v[i] = UINT64_MAX - rnd(3); break;
      case 6: v[i] = (i * 7919u) % (n + 1); break;
      case 7: v[i] = i < n / 2 ? i : n - i; break;
      case 8: v[i] = 42; break;
      default: v[i] = (rnd(4) == 0 ? 1ull << 63 : 0) + rnd(10); break;
      }
    if (rnd(3) == 0 && n > 2) { uint32_t p = rnd(n), q = rnd(n); uint64_t t = v[p]; v[p] = v[q]; v[q] = t; }
    one(v, n, r < 30 && n < 200);
  }
  for (uint32_t q = 0; q < 17; q++)
    if (q % nparts == part) longone(q < 4 ? 60000 + q : q < 8 ? 65536 : q < 12 ? 200000 + 3 * q : q < 16 ? 1048577 + q : 16777237, (int) (q < 4 ? q % 2 : 2 + q % 5));
  hx_finish();
  return 0;
}
