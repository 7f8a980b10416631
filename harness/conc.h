/*
 * The same calls alone, after other calls, and from several threads at once.
 * Used by d_thread.c (arrays) and d_pure.c (intervals, bounds, sort).
 *
 * A task is a function with NV sets of arguments. Results:
 *   alone    the only call of a process
 *   first    the first calls of a process, from several threads at once
 *   later    any call of a process, from one thread
 *   many     any of tens of thousands of calls of one function in a process
 *   threads  any call of a process, from several threads
 */
#ifndef CONC_H
#define CONC_H
#include <pthread.h>
#include <stdatomic.h>
#include <sys/wait.h>
#include <time.h>
#define NV 8                  /* sets of arguments of each task */
#define MAXTASK 200
typedef struct {
  const char *op;
  int f, var;
  uint32_t n, len;            /* length of the result */
  int32_t *alone, *got;
  atomic_int bad;             /* 1: got is being written, 2: got holds another result */
  int how;
  atomic_ulong calls;
} ctask_t;
static ctask_t *C;
static int nt;
static atomic_int *ready;     /* shared */
/* the driver: call of task k with arguments v, result in out; id: number of the thread */
static void work(int k, int v, int32_t *out, unsigned id);
static const char *const howname[] = { "first", "later", "threads", "many" };

static void *shared(size_t len) {
  void *p = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) exit(3);
  return p;
}
static void conc_init(void) { C = shared(sizeof *C * MAXTASK * NV); ready = shared(4096); }
static int conc_add(const char *op, int f, int var, uint32_t n, uint32_t len) {
  if (nt == MAXTASK) exit(3);
  for (int v = 0; v < NV; v++) {
    ctask_t *t = &C[nt * NV + v];
    t->op = op; t->f = f; t->var = var; t->n = n; t->len = len;
    t->alone = shared(4 * len + 4); t->got = shared(4 * len + 4);
  }
  return nt++;
}
static void compare(int k, int v, const int32_t *out, int how) {
  ctask_t *t = &C[k * NV + v];
  int none = 0;
  atomic_fetch_add_explicit(&t->calls, 1, memory_order_relaxed);
  if (memcmp(out, t->alone, 4 * t->len) == 0 || !atomic_compare_exchange_strong(&t->bad, &none, 1)) return;
  memcpy(t->got, out, 4 * t->len); t->how = how;
  atomic_store(&t->bad, 2);
}
static unsigned long now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (unsigned long) t.tv_sec * 1000 + (unsigned long) t.tv_nsec / 1000000; }
/* in a child; a child that does not end in order is a crash of the driver */
static bool child(void) {
  fflush(NULL);
  pid_t p = fork();
  if (p < 0) exit(3);
  if (p == 0) { hx_uncatch(); hx_done = true; alarm(120); return true; }
  int st;
  while (waitpid(p, &st, 0) != p) ;
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { dprintf(hx_fd, "CRASH signal=%d in %s\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, hx_where); fflush(hx_out); _exit(40); }
  return false;
}
static int maxlen(void) { uint32_t m = 0; for (int i = 0; i < nt * NV; i++) if (C[i].len > m) m = C[i].len; return (int) m; }

static void alone(void) {
  for (int i = 0; i < nt * NV; i++) {
    WHERE("%s n=%u alone", C[i].op, C[i].n);
    hx_calls++;
    if (child()) { work(i / NV, i % NV, C[i].alone, 0); _exit(0); }
  }
}
/* first calls: of one task, or of several tasks of the same size */
typedef struct { unsigned id, nthr; int k, v; int32_t *out; } farg_t;
static void *fworker(void *p) {
  farg_t *a = p;
  atomic_fetch_add(ready, 1);
  while (atomic_load(ready) < (int) a->nthr) ;
  for (int v = 0; v < 3; v++) { int w = (a->v + 3 * v) % NV; work(a->k, w, a->out, a->id); compare(a->k, w, a->out, 0); }
  return NULL;
}
static void first(int reps, unsigned nthr) {
  static farg_t fa[64];
  static pthread_t th[64];
  for (int r = 0; r < reps; r++) for (int k = 0; k < nt; k++) {
    WHERE("%s n=%u first calls from %u threads", C[k * NV].op, C[k * NV].n, nthr);
    atomic_store(ready, 0);
    int o = (int) rnd((uint32_t) nt);
    while (C[o * NV].n != C[k * NV].n) o = (o + 1) % nt;
    if (!child()) continue;
    unsigned i;
    for (i = 0; i < nthr; i++) {
      fa[i] = (farg_t) { i + 1, nthr, (r & 1) && i >= nthr / 2 ? o : k, (int) (i % NV), malloc(4 * (size_t) maxlen() + 4) };
      if (pthread_create(&th[i], NULL, fworker, &fa[i])) _exit(1);
    }
    for (i = 0; i < nthr; i++) pthread_join(th[i], NULL);
    _exit(0);
  }
}
/* sequences of calls: at random, many of one task, and of a few tasks in turns */
static void later(int procs, int len) {
  for (int q = 0; q < procs; q++) {
    WHERE("sequences of calls");
    uint64_t s = rnd64();
    if (!child()) continue;
    hx_state = s;
    int32_t *out = malloc(4 * (size_t) maxlen() + 4);
    for (int i = 0; i < len; ) {
      int a = (int) rnd((uint32_t) nt), b = rnd(2) ? a : (int) rnd((uint32_t) nt), m = 1 + (int) rnd(24), nv = 1 + (int) rnd(NV), v0 = (int) rnd(NV);
      for (; m > 0; m--, i++) {
        int k = rnd(3) ? a : b, v = (v0 + (int) rnd((uint32_t) nv)) % NV;
        work(k, v, out, 0); compare(k, v, out, 1);
      }
    }
    _exit(0);
  }
}
/* one function, called until counters of 16 bits wrap around (unless that takes too long) */
static void many(uint32_t calls, unsigned long ms, unsigned procs) {
  WHERE("many calls of one function");
  int *next = shared(4096);
  unsigned long begin = now_ms();
  for (unsigned p = 0; p < procs; p++) {
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) exit(3);
    if (pid) continue;
    hx_uncatch(); hx_done = true; alarm(hx_limit());
    int32_t *out = malloc(4 * (size_t) maxlen() + 4);
    for (;;) {
      int k = __atomic_fetch_add(next, 1, __ATOMIC_SEQ_CST), st;
      if (k >= nt || now_ms() - begin > 6 * ms) _exit(0);   /* a slow machine does less */
      pid_t q = fork();
      if (q < 0) _exit(1);
      if (q == 0) {
        alarm(120);
        unsigned long t0 = now_ms();
        for (uint32_t i = 0; i < calls && ((i & 255) || now_ms() - t0 < ms); i++) { work(k, (int) (i / 3 % NV), out, 0); compare(k, (int) (i / 3 % NV), out, 3); }
        /* and calls of the same function for its smallest size, any number of them and 2^16 - 1 */
        int o = k;
        for (int i = 0; i < nt; i++) if (C[i * NV].op == C[k * NV].op && C[i * NV].f == C[k * NV].f && C[i * NV].var == C[k * NV].var && C[i * NV].n < C[o * NV].n) o = i;
        if (o == k) _exit(0);
        for (uint32_t m = 0; m <= 300; m++) {
          uint32_t l = m < 300 ? m : 65535;
          work(k, (int) (m % NV), out, 0); compare(k, (int) (m % NV), out, 3);
          for (uint32_t i = 0; i < l && ((i & 1023) != 1023 || now_ms() - t0 < 2 * ms); i++) { work(o, (int) (i % NV), out, 0); compare(o, (int) (i % NV), out, 3); }
        }
        work(k, 0, out, 0); compare(k, 0, out, 3);
        _exit(0);
      }
      while (waitpid(q, &st, 0) != q) ;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(1);
    }
  }
  int st, bad = 0;
  for (unsigned p = 0; p < procs; p++) if (wait(&st) > 0 && st) bad = 1;
  if (bad) { dprintf(hx_fd, "CRASH signal=%d in %s\n", 0, hx_where); fflush(hx_out); _exit(40); }
}
static unsigned ms_limit;
static unsigned long thr_start;
static void *worker(void *arg) {
  unsigned id = (unsigned) (uintptr_t) arg;
  uint64_t s = id * 0x9E3779B97F4A7C15ull + 12345;
  int32_t *out = malloc(4 * (size_t) maxlen() + 4);
  unsigned long t0 = thr_start;
  while (now_ms() - t0 < ms_limit) {
    for (int r = 0; r < 64; r++) {
      s ^= s << 13; s ^= s >> 7; s ^= s << 17;
      /* in turns: all threads at random; all threads at the same task */
      unsigned long sl = (now_ms() - t0) / 6;
      int k = sl % 3 == 2 ? (int) (s % (uint64_t) nt) : (int) ((sl / 3 * 2 + sl % 3) % (unsigned) nt);
      int v = (int) (s >> 40 & 1 ? id % NV : (s >> 33) % (s >> 41 & 1 ? 2 : NV));
      work(k, v, out, id); compare(k, v, out, 2);
    }
  }
  return NULL;
}
static void threads(unsigned ms, unsigned nthr) {
  pthread_t th[64];
  ms_limit = ms; thr_start = now_ms();
  WHERE("calls from %u threads", nthr);
  if (!child()) return;
  for (unsigned i = 0; i < nthr; i++) if (pthread_create(&th[i], NULL, worker, (void *) (uintptr_t) (i + 1))) _exit(1);
  for (unsigned i = 0; i < nthr; i++) pthread_join(th[i], NULL);
  _exit(0);
}
static void conc_report(const char *fam, unsigned nthr) {
  for (int k = 0; k < nt * NV; k++) {
    ctask_t *t = &C[k];
    hx_calls += t->calls;
    if (!t->bad) { hx_cases += t->calls; if (k % NV) continue; }
    ev_open("conc"); ev_s("fam", fam); ev_s("op", t->op); ev_i("f", t->f); ev_i("var", t->var); ev_i("n", t->n);
    ev_s("how", t->bad ? howname[t->how] : "all"); ev_i("threads", nthr); ev_i("calls", (int64_t) (t->calls & 0x3FFFFFFF));
    ev_v("alone", t->alone, t->len); ev_v("got", t->bad ? t->got : t->alone, t->len); ev_end();
  }
}
#endif
