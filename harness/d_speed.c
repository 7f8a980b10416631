/*
 * The programs that measure the products, run on a clock of our own: the
 * instruction that reads the counter of cycles traps (prctl PR_SET_TSC) and
 * is given the value of a clock that advances only in the products, by
 * durations we choose.
 * usage: d_speed OUT SEED WEIGHT PART NPARTS SCRATCH
 */
#include "hx.h"
#include <fcntl.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <sys/wait.h>
extern int speed_main(void);
#if KIND == 1
#define PNAME "speed_mul1024"
#define F(k) ntt1024_product##k
#elif KIND == 2
#define PNAME "speed_mul1024_naive"
#define F(k) naive_ntt1024_product##k
#elif KIND == 3
#define PNAME "speed_mul1024_red"
#define F(k) ntt_red1024_product##k
#else
#define PNAME "speed_mul1024_red_asm"
#define F(k) ntt_red1024_product##k##_asm
#endif
#define NV 4
#define SEGS 16
typedef struct { uint64_t clock; uint32_t segs; struct { int fun; uint32_t calls, cnt[NV], overlap, invalid; } s[SEGS]; int64_t val[SEGS][NV]; uint32_t total; int order[SEGS]; uint32_t cut[SEGS]; } shared_t;
static shared_t *S;
/* which of the values the i-th call of a segment takes */
static int pick(int order, uint32_t i, uint32_t n, uint32_t cut) {
  switch (order) {
  case 0: return i < cut ? 0 : 1;                          /* cut calls take the first value, the others the second */
  case 1: return i >= n - (cut < n ? cut : n) ? 0 : 1;
  case 2: return i == 0 ? 2 : i < cut ? 0 : 1;             /* one that stands out: the first, the last, one inside */
  case 3: return i == n - 1 ? 2 : i < cut ? 1 : 0;
  case 4: return i == n / 3 ? 3 : (int) (i % 3);
  case 5: return (int) rnd(NV);
  case 6: return (uint64_t) i * 40503 % n < cut ? 0 : 1;   /* the same numbers, spread */
  default: return 0;
  }
}
static bool apart(const int32_t *x, const int32_t *y) { return x + 1024 <= y || y + 1024 <= x; }
static void product(int k, int32_t *x, int32_t *y, int32_t *z) {
  if (S->segs == 0 || S->s[S->segs - 1].fun != k) { if (S->segs == SEGS) _exit(77); S->s[S->segs++].fun = k; }
  uint32_t g = S->segs - 1;
  int v = pick(S->order[g], S->s[g].calls, S->total, S->cut[g]);
  if (!apart(x, y) || !apart(x, z) || !apart(y, z)) S->s[g].overlap++;
  if (S->s[g].calls == 0) for (int i = 0; i < 1024; i++) if (y[i] < 0 || y[i] >= HQ || z[i] < 0 || z[i] >= HQ) S->s[g].invalid++;
  x[0] = x[1023] = y[0] = y[1023] = z[0] = z[1023] = -1;     /* products may destroy their arguments */
  S->s[g].calls++; S->s[g].cnt[v]++;
  S->clock += (uint64_t) S->val[g][v];
}
void F(1)(int32_t *x, int32_t *y, int32_t *z) { product(1, x, y, z); }
void F(2)(int32_t *x, int32_t *y, int32_t *z) { product(2, x, y, z); }
void F(3)(int32_t *x, int32_t *y, int32_t *z) { product(3, x, y, z); }
void F(4)(int32_t *x, int32_t *y, int32_t *z) { product(4, x, y, z); }
void F(5)(int32_t *x, int32_t *y, int32_t *z) { product(5, x, y, z); }

static void counter(int sig, siginfo_t *si, void *cx) {
  ucontext_t *u = cx;
  const uint8_t *p = (const uint8_t *) u->uc_mcontext.gregs[REG_RIP];
  int len = p[0] == 0x0f && p[1] == 0x31 ? 2 : p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9 ? 3 : 0;
  if (!len) _exit(78);
  u->uc_mcontext.gregs[REG_RAX] = (greg_t) (S->clock & 0xffffffffu);
  u->uc_mcontext.gregs[REG_RDX] = (greg_t) (S->clock >> 32);
  if (len == 3) u->uc_mcontext.gregs[REG_RCX] = 0;
  u->uc_mcontext.gregs[REG_RIP] += len;
}
static void run(const char *path, bool emit) {
  int st; uint32_t g, blocks = 0;
  char line[256];
  fflush(hx_out);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(nul, 2);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = counter; sa.sa_flags = SA_SIGINFO;
    hx_uncatch(); sigaction(SIGSEGV, &sa, NULL);
    alarm(60);
    if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV)) _exit(79);
    st = speed_main(); fflush(NULL); _exit(st);
  }
  waitpid(pid, &st, 0); hx_calls++;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { fprintf(stderr, "the counter cannot be replaced here\n"); exit(3); }
  if (!emit) { unlink(path); return; }
  FILE *f = fopen(path, "r");
  int label = 0; uint64_t med = 0, avg = 0; char *q;
  while (f && fgets(line, sizeof line, f)) {
    if ((q = strstr(line, "product")) && q[7] >= '1' && q[7] <= '9') label = atoi(q + 7);
    if (sscanf(line, "median: %" SCNu64, &med) == 1) continue;
    if (sscanf(line, "average: %" SCNu64, &avg) != 1) continue;
    g = blocks++;
    if (g >= S->segs) continue;
    int32_t cn[NV]; for (int i = 0; i < NV; i++) cn[i] = (int32_t) S->s[g].cnt[i];
    ev_open("speed"); ev_s("op", PNAME); ev_i("fun", S->s[g].fun); ev_i("label", label); ev_i("calls", S->s[g].calls); ev_i("overlap", S->s[g].overlap); ev_i("invalid", S->s[g].invalid);
    ev_wv("val", S->val[g], NV); ev_v("cnt", cn, NV); ev_w("median", (int64_t) med); ev_w("average", (int64_t) avg); ev_end();
  }
  if (f) fclose(f);
  unlink(path);
  int32_t funs[SEGS]; for (g = 0; g < S->segs; g++) funs[g] = S->s[g].fun;
  ev_open("speedrun"); ev_s("op", PNAME); ev_v("funs", funs, S->segs); ev_i("blocks", blocks); ev_i("status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000); ev_end();
}
static void fresh(void) {
  static const uint64_t start[] = { 0, 1, 0xfffffc00ull, 0x1ffffff00ull, 1ull << 33, 1ull << 47, 0x7fffffffffull, 1ull << 62 };
  uint32_t total = S->total;
  memset(S, 0, sizeof *S);
  S->total = total; S->clock = start[rnd(8)] + rnd(1000);
}
int main(int argc, char **argv) {
  if (argc != 7) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]);
  char path[512];
  (void) nparts;
  snprintf(path, sizeof path, "%s/" PNAME ".%u.txt", argv[6], part);
  hx_seed(strtoull(argv[2], NULL, 10) * 137 + part);
  alarm(hx_limit());
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 3;
  WHERE(PNAME);
  S->total = 100; fresh();
  run(path, false);                     /* how many calls are measured */
  S->total = S->s[0].calls ? S->s[0].calls : 100;
  for (uint32_t r = 0; r < weight; r++) {
    fresh();
    for (uint32_t g = 0; g < SEGS; g++) {
      int64_t b = rnd(3) == 0 ? 1 + rnd(20) : rnd(2) ? 20000 + rnd(100000) : (int64_t) (rnd64() >> 26);
      S->val[g][0] = b; S->val[g][1] = b + 1 + (rnd(2) ? rnd(3) : rnd(100000)); S->val[g][2] = rnd(2) ? 0 : 1ll << (20 + rnd(20)); S->val[g][3] = rnd(4) ? b / 2 : 3 * b;
      S->order[g] = (int) ((g + 5 * (r + part) + r / 7) % 8);
      S->cut[g] = S->total / 2 + rnd(5) - 2;
      if (rnd(6) == 0) S->cut[g] = rnd(S->total);
    }
    run(path, true);
  }
  hx_finish();
  return 0;
}
