/*
 * Ownership of the intervals: what the interval functions allocate and
 * release, where operands lie, what happens when memory is refused.
 * Linked with --wrap for malloc, calloc, realloc and free.
 * usage: d_heap OUT SEED WEIGHT PART NPARTS
 */
#include "hx.h"
#include <setjmp.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "intervals.h"
#include "ntt_red_interval.h"

extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
extern void __real_free(void *);

/* blocks are slots of an arena; fenced: each block ends at an inaccessible page, and is inaccessible when released */
#define SLOTS (1u << 18)
#define PAGE 4096u
static char *arena; static size_t stride; static bool fenced, recording;
static uint32_t nslots;
static uint8_t live[SLOTS]; static uint16_t sizes[SLOTS];
static int32_t ev[400000]; static uint32_t nev;
static uint64_t news, dels, bad;
static uint32_t refuse; static uint64_t asked; static bool refused;
static char *block(uint32_t i) { return fenced ? arena + stride * i + PAGE - ((sizes[i] + 15u) & ~15u) : arena + stride * i; }
static uint32_t id_of(const void *p) { /* 0: not the start of a block */
  if ((const char *) p < arena || (const char *) p >= arena + stride * nslots) return 0;
  uint32_t i = (uint32_t) (((const char *) p - arena) / stride);
  return block(i) == (const char *) p ? i + 1 : 0;
}
static void note(int32_t x) { if (nev < sizeof ev / sizeof ev[0]) ev[nev++] = x; }
void *__wrap_malloc(size_t size) {
  if (!recording) return __real_malloc(size);
  asked++;
  if (refuse && asked >= refuse) { refused = true; return NULL; }
  if (size > 1024 || nslots >= SLOTS || (size_t) (nslots + 1) * stride > (1ul << 30)) return __real_malloc(size);
  uint32_t i = nslots++;
  sizes[i] = (uint16_t) size; live[i] = 1;
  if (fenced) mprotect(arena + stride * i, PAGE, PROT_READ | PROT_WRITE);
  memset(block(i), 0xa5, size);
  news++; note((int32_t) i + 1);
  return block(i);
}
void *__wrap_calloc(size_t a, size_t b) { if (!recording) return __real_calloc(a, b); void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p) {
  if (p == NULL) return;
  uint32_t i = id_of(p);
  if (i == 0) {
    if (arena && (char *) p >= arena && (char *) p < arena + (1ul << 30)) { bad++; note(-1000000000); return; }
    __real_free(p); return;
  }
  if (!recording) { live[i - 1] = 0; return; }
  note(-(int32_t) i); dels++;
  if (!live[i - 1]) { bad++; return; }
  live[i - 1] = 0;
  if (fenced) mprotect(arena + stride * (i - 1), PAGE, PROT_NONE); else memset(p, 0xdd, sizes[i - 1]);
}
void *__wrap_realloc(void *p, size_t n) {
  uint32_t i = id_of(p);
  if (i == 0) return p ? __real_realloc(p, n) : __wrap_malloc(n);
  void *q = __wrap_malloc(n);
  if (q) { memcpy(q, p, sizes[i - 1] < n ? sizes[i - 1] : n); __wrap_free(p); }
  return q;
}
static void heap_reset(bool f) {
  fenced = f; stride = f ? 2 * PAGE : 32; nslots = 0; nev = 0; news = dels = bad = asked = 0; refused = false;
  memset(live, 0, sizeof live);
  if (f) mprotect(arena, 1ul << 30, PROT_NONE); else mprotect(arena, (size_t) SLOTS * 32, PROT_READ | PROT_WRITE);
}
static bool scribbled(void) { /* a released block was written */
  if (!fenced) for (uint32_t i = 0; i < nslots; i++) if (!live[i]) for (uint32_t k = 0; k < sizes[i]; k++) if ((uint8_t) block(i)[k] != 0xdd) return true;
  return false;
}

static sigjmp_buf jb; static volatile sig_atomic_t armed;
static void onfault(int sig) { if (armed) { armed = 0; siglongjmp(jb, 1); } hx_crash(sig); }

/* an array between inaccessible pages, with canaries */
#define AR (1u << 16)
static char *zone[4];
static char *zlo[4]; static size_t zlen[4];
static void *place(int k, size_t size, bool end, size_t align) {
  char *z = zone[k] + PAGE;
  (void) align;
  mprotect(z, AR, PROT_READ | PROT_WRITE);
  memset(z, 0x5a, AR);
  zlo[k] = end ? z + AR - size : z; zlen[k] = size;
  return zlo[k];
}
static bool outside(int k) {
  char *z = zone[k] + PAGE;
  for (char *c = z; c < z + AR; c++) if ((c < zlo[k] || c >= zlo[k] + zlen[k]) && *c != 0x5a) return true;
  return false;
}

typedef void (*f1_t)(interval_t **, uint32_t, const int16_t *);
typedef void (*f2_t)(interval_t **, uint32_t, const interval_t **);
typedef void (*f0_t)(interval_t **, uint32_t);
static void mulc(interval_t **c, uint32_t n, const interval_t **a, const interval_t **b) { abstract_mul_reduce_array(c, n, a, b); }
/* factors and table entries that a function may single out */
static int32_t factor(void) {
  static const int32_t v[] = { 0, 1, -1, 2, -2, 3, -3, 4096, -4096, 4095, 6144, -6144, 8, 16, -8192 + 4097, 1 };
  return rnd(2) ? v[rnd(16)] : (int32_t) rnd_in(-6144, 6144);
}
static int32_t scale = 1;
static void scal(interval_t **a, uint32_t n) { abstract_scalar_mul_reduce_array(a, n, scale); }
#define T(x) { "abstract_" #x, abstract_##x, NULL, NULL }, { "abstract2_" #x, NULL, abstract2_##x, NULL }
#define E(x) { "abstract_" #x, NULL, NULL, abstract_##x }
static const struct { const char *name; f1_t f1; f2_t f2; f0_t f0; } fn[] = {
  T(ntt_red_ct_rev2std), T(mulntt_red_ct_rev2std), T(ntt_red_ct_std2rev), T(mulntt_red_ct_std2rev),
  T(ntt_red_gs_rev2std), T(nttmul_red_gs_rev2std), T(ntt_red_gs_std2rev), T(nttmul_red_gs_std2rev),
  E(normalize), E(normalize_inv3), E(shift_array), E(reduce_array), E(reduce_array_twice), E(correct),
  { "abstract_scalar_mul_reduce_array", NULL, NULL, scal }, { "abstract_mul_reduce_array16", abstract_mul_reduce_array16, NULL, NULL },
  { "abstract_mul_reduce_array", NULL, NULL, NULL },
};
#define NFN ((int) (sizeof fn / sizeof fn[0]))
static int saved;
static void hush(void) { fflush(stdout); saved = dup(1); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
static void unhush(void) { fflush(stdout); dup2(saved, 1); close(saved); }

/* an interval within [lo, hi], of every shape */
static interval_t *some(int64_t lo, int64_t hi) {
  static const int64_t v[] = { 0, 1, -1, 6144, 6145, -6144, -6145, 12288, 12289, -12289, -12288, 24577, 4095, 4096, 21499, -21499, 8191 };
  int64_t l = rnd(2) ? v[rnd(17)] : rnd_in(lo, hi), h;
  if (rnd(6) == 0) l = lo;
  if (l < lo || l > hi) l = rnd_in(lo, hi);
  switch (rnd(5)) {
  case 0: h = l; break;
  case 1: h = hi; break;
  case 2: h = v[rnd(17)]; break;
  case 3: h = l + 12287 + rnd(4); break;
  default: h = rnd_in(l, hi);
  }
  if (h > hi) h = hi;
  return interval(l, h < l ? l : h);
}
static interval_t *fit(const char *op) {
  if (strstr(op, "shift")) return some(0, 12288);
  if (strstr(op, "correct")) return some(-12289, 24577);
  return some(-60000, 60000);
}
/* operands of a call: array a (held), other intervals (kept) */
static interval_t **a, **b, **c; static int16_t *p; static uint32_t an;
static void operands(int k, uint32_t n, bool end) {
  uint32_t i;
  bool isx = k < 16;
  a = place(0, sizeof *a * n, end, 8); an = n;
  b = place(1, sizeof *b * n, end, 8);
  c = place(2, sizeof *c * n, end, 8);
  p = place(3, sizeof *p * n, end, 2);
  uint32_t shape = rnd(8);              /* 0: all equal, 1: many equal neighbours, 2: zeros, 3 (transforms): beyond 32 bits */
  scale = factor();
  for (i = 0; i < n; i++) {
    if (shape == 2) a[i] = interval(0, 0);
    else if (i > 0 && (shape == 0 || (shape == 1 && rnd(3)))) a[i] = interval(a[i - 1]->min, a[i - 1]->max);
    else if (isx && shape == 3) a[i] = some(-(1ll << 32), 1ll << 32);
    else a[i] = isx ? some(-21499, 21499) : fit(fn[k].name);
    p[i] = (int16_t) (shape == 0 ? (i ? p[i - 1] : factor()) : shape & 1 ? factor() : rnd_in(-6144, 6144));
  }
  if (fn[k].f2 || k == NFN - 1) for (i = 0; i < n; i++) { int64_t l = shape & 1 ? factor() : rnd_in(-6144, 6140); b[i] = interval(l, rnd(3) ? l + rnd(3) : l); }
  memset(c, 0x11, sizeof *c * n);   /* not the address of anything */
}
static void call(int k, uint32_t n) {
  if (fn[k].f1) fn[k].f1(a, n, p); else if (fn[k].f2) fn[k].f2(a, n, (const interval_t **) b); else if (fn[k].f0) fn[k].f0(a, n);
  else mulc(c, n, (const interval_t **) a, (const interval_t **) b);
}
static void ids(const char *name, interval_t **v, uint32_t n) {
  fprintf(hx_out, ",\"%s\":[", name);
  for (uint32_t i = 0; i < n; i++) fprintf(hx_out, i ? ",%u" : "%u", id_of(v[i]));
  fputc(']', hx_out);
}
static void one(int k, uint32_t n, bool fence, bool end) {
  bool two = fn[k].f2 || k == NFN - 1, last = k == NFN - 1;
  heap_reset(fence);
  recording = true; operands(k, n, end); recording = false;
  uint32_t base = nev, i;
  static interval_t *a0[4096], *b0[4096]; static int16_t p0[4096]; static interval_t bv[4096], av[4096];
  memcpy(a0, a, sizeof *a * n); memcpy(b0, b, sizeof *b * n); memcpy(p0, p, 2 * n);
  if (two) for (i = 0; i < n; i++) bv[i] = *b[i];
  if (last) for (i = 0; i < n; i++) av[i] = *a[i];
  mprotect(zone[3] + PAGE, AR, PROT_READ); if (two) mprotect(zone[1] + PAGE, AR, PROT_READ); if (last) mprotect(zone[0] + PAGE, AR, PROT_READ);
  WHERE("%s n=%u heap", fn[k].name, n);
  int fault = 0;
  hush();
  if (sigsetjmp(jb, 1) == 0) { armed = 1; recording = true; call(k, n); }
  else fault = 1;
  recording = false; armed = 0; unhush(); hx_calls++;
  int kept = 1;
  if (two) for (i = 0; i < n; i++) if (!id_of(b[i]) || !live[id_of(b[i]) - 1] || b[i] != b0[i] || memcmp(&bv[i], b[i], sizeof bv[i])) kept = 0;
  if (last) for (i = 0; i < n; i++) if (!id_of(a[i]) || !live[id_of(a[i]) - 1] || a[i] != a0[i] || memcmp(&av[i], a[i], sizeof av[i])) kept = 0;
  if (memcmp(p0, p, 2 * n)) kept = 0;
  int touched = outside(0) || outside(1) || outside(2) || outside(3) || scribbled();
  uint32_t nlive = 0, distinct = 0; interval_t **cells = last ? c : a;
  for (i = 0; i < nslots; i++) nlive += live[i];
  static uint8_t seen[SLOTS]; memset(seen, 0, nslots);
  for (i = 0; i < n; i++) { uint32_t d = id_of(cells[i]); if (d && live[d - 1] && !seen[d - 1]) { seen[d - 1] = 1; distinct++; } }
  if (nev - base <= 3000 && nev < sizeof ev / sizeof ev[0]) {
    ev_open("heap"); ev_s("op", fn[k].name); ev_i("n", n); ev_i("fault", fault); ev_i("touched", touched); ev_i("kept", kept);
    ids("held", last ? b0 : a0, last ? 0 : n);
    ids("other", last ? a0 : b0, two ? n : 0); ids("other2", b0, last ? n : 0);
    ev_v("ev", ev + base, nev - base); ids("cells", cells, n); ev_end();
  } else {
    ev_open("heapn"); ev_s("op", fn[k].name); ev_i("n", n); ev_i("fault", fault); ev_i("touched", touched); ev_i("kept", kept);
    ev_i("bad", (int64_t) bad); ev_i("live", nlive); ev_i("distinct", distinct); ev_i("others", last ? 2 * n : two ? n : 0); ev_end();
  }
}
/* single operations */
static const char *const op1[] = { "point", "interval", "add", "sub", "neg", "red", "red_mul", "red_scale", "red_twice", "normal", "normal_inv3", "shift", "correct" };
static interval_t *apply(int k, interval_t *x, interval_t *y) {
  switch (k) {
  case 0: return point(x->min); case 1: return interval(x->min, x->max); case 2: return add(x, y); case 3: return sub(x, y); case 4: return neg(x); case 5: return red(x);
  case 6: return red_mul(x, y); case 7: return red_scale(scale, x); case 8: return red_twice(x); case 9: return normal(x); case 10: return normal_inv3(x);
  case 11: return shift(x); default: return correct(x);
  }
}
static void single(int k, bool same) {
  interval_t *x, *y, *r = NULL, vx, vy;
  heap_reset(true);
  recording = true;
  scale = factor();
  x = fit(op1[k]); int64_t l = rnd_in(-6144, 6000); y = same ? x : (rnd(4) ? interval(l, l + rnd(20)) : interval(0, 0));
  recording = false;
  uint32_t base = nev; vx = *x; vy = *y;
  mprotect(arena + stride * (id_of(x) - 1), PAGE, PROT_READ); mprotect(arena + stride * (id_of(y) - 1), PAGE, PROT_READ);
  WHERE("%s heap", op1[k]);
  int fault = 0;
  if (sigsetjmp(jb, 1) == 0) { armed = 1; recording = true; r = apply(k, x, y); } else fault = 1;
  recording = false; armed = 0; hx_calls++;
  int kept = live[id_of(x) - 1] && live[id_of(y) - 1] && !memcmp(&vx, x, sizeof vx) && !memcmp(&vy, y, sizeof vy);
  ev_open("heap"); ev_s("op", op1[k]); ev_i("n", 1); ev_i("fault", fault); ev_i("touched", 0); ev_i("kept", kept);
  fputs(",\"held\":[]", hx_out); ids("other", &x, 1); ids("other2", &y, 1); ev_v("ev", ev + base, nev - base); ids("cells", &r, 1); ev_end();
  /* the destructor releases its argument and nothing else */
  if (!fault && r && id_of(r)) {
    base = nev; recording = true;
    if (sigsetjmp(jb, 1) == 0) { armed = 1; delete_interval(r); } else fault = 1;
    recording = false; armed = 0; hx_calls++;
    ev_open("heap"); ev_s("op", "delete_interval"); ev_i("n", 0); ev_i("fault", fault); ev_i("touched", 0); ev_i("kept", 1);
    ids("held", &r, 1); ids("other", &x, 1); ids("other2", &y, 1); ev_v("ev", ev + base, nev - base); ids("cells", &r, 0); ev_end();
  }
}
/* the k-th request for memory of a call, and all later ones, are refused */
static void refusal(int k, uint32_t n, uint32_t at, int sop) {
  fflush(hx_out);
  int pp[2]; if (pipe(pp)) _exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    hx_uncatch(); alarm(60);
    heap_reset(false);
    recording = true;
    interval_t *x = interval(5, 100), *y = interval(-3, 20);
    if (sop < 0) operands(k, n, true);
    asked = 0; refuse = at;
    if (sop < 0) call(k, n); else apply(sop, x, y);
    recording = false;
    char r = refused ? 1 : 0; if (write(pp[1], &r, 1) != 1) _exit(9);
    _exit(0);
  }
  close(pp[1]);
  char r = 2; int st; if (read(pp[0], &r, 1) != 1) r = 2;
  close(pp[0]); waitpid(pid, &st, 0); hx_calls++;
  /* returned: 0 the call did not return, 1 it returned; refused: memory was refused before it returned */
  ev_open("refuse"); ev_s("op", sop < 0 ? fn[k].name : op1[sop]); ev_i("n", n); ev_i("at", at); ev_i("returned", r != 2); ev_i("refused", r != 0);
  ev_i("status", WIFEXITED(st) ? (WEXITSTATUS(st) ? 1 : 0) : WTERMSIG(st) == SIGABRT ? 2 : 3); ev_end();
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onfault; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]), unit = 0;
  uint64_t seed = strtoull(argv[2], NULL, 10);
  alarm(hx_limit());
  arena = mmap(NULL, 1ul << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) return 3;
  for (int k = 0; k < 4; k++) { zone[k] = mmap(NULL, AR + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (zone[k] == MAP_FAILED) return 3; }
  for (uint32_t w = 0; w < 6 * weight; w++)
    for (int k = 0; k < NFN; k++) {
      if (k < 16) for (uint32_t n = 2; n <= (w < weight ? 2048 : 32); n <<= 1) {
        if (unit++ % nparts != part) continue;
        hx_seed(seed * 77 + unit);
        if (n > 256 && k % 2 && w) continue;
        one(k, n, n <= 64, w % 2 || rnd(2));
      } else for (uint32_t n = 0; n <= (w < weight ? 40 : 12); n++) {
        if (unit++ % nparts != part) continue;
        hx_seed(seed * 77 + unit);
        one(k, n <= 33 ? n : 33 + 97 * (n - 33), n <= 33, rnd(2));
      }
    }
  for (uint32_t w = 0; w < 200 * weight; w++) for (int k = 0; k < 13; k++) { if (unit++ % nparts != part) continue; hx_seed(seed * 77 + unit); single(k, w % 4 == 3); }
  for (int k = 0; k < 13; k++) { if (unit++ % nparts != part) continue; hx_seed(unit); refusal(0, 1, 1, k); refusal(0, 1, 2, k); }
  for (int k = 0; k < NFN; k++) { if (unit++ % nparts != part) continue; hx_seed(seed * 77 + unit); for (uint32_t r = 1; r <= 12 * weight; r++) refusal(k, 8, r, -1); }
  hx_finish();
  return 0;
}
