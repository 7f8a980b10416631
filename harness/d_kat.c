/*
 * Known-answer data, and the known-answer programs run with products that
 * are right except in chosen places.
 * usage: d_kat OUT SEED WEIGHT PART NPARTS
 */
#include "hx.h"
#include <fcntl.h>
#include <sys/wait.h>
#include "data_poly1024.h"
extern int kat_main(void);
#if KIND == 1
#define PNAME "kat_mul1024"
#define F(k) ntt1024_product##k
#elif KIND == 3
#define PNAME "kat_mul1024_red"
#define F(k) ntt_red1024_product##k
#else
#define PNAME "kat_mul1024_red_asm"
#define F(k) ntt_red1024_product##k##_asm
#endif
static int32_t ka[REPETITIONS][1024], kb[REPETITIONS][1024], kc[REPETITIONS][1024];
static int wp = -1, wr, wj, wk; static int32_t wd;     /* product wp is wrong on triple wr, at coefficient wj, by wd */
/* kinds of errors: one coefficient, two whose differences cancel, two exchanged, two with the same bits changed,
   a quarter of them, all of them, all negated, a shift by one place, nothing written */
enum { K_ONE, K_PAIR, K_SWAP, K_XOR, K_QUARTER, K_ALL, K_NEG, K_ROT, K_NONE, K_COUNT };
static void spoil(int32_t *v) {
  int i = wj, o = (wj + 1 + (wd & 255)) % 1024, m; int32_t t;
  switch (wk) {
  case K_ONE: v[i] += wd; break;
  case K_PAIR: v[i] += wd; v[o] -= wd; break;
  case K_SWAP: while (v[o] == v[i]) o = (o + 1) % 1024; t = v[i]; v[i] = v[o]; v[o] = t; break;
  case K_XOR: v[i] ^= wd; v[o] ^= wd; break;
  case K_QUARTER: for (m = 0; m < 256; m++) v[(i + m) % 1024] += wd; break;
  case K_ALL: for (m = 0; m < 1024; m++) v[m] += wd; break;
  case K_NEG: for (m = 0; m < 1024; m++) v[m] = -v[m]; break;
  case K_ROT: t = v[1023]; for (m = 1023; m > 0; m--) v[m] = v[m - 1]; v[0] = t; break;
  default: for (m = 0; m < 1024; m++) v[m] = 0;
  }
}
static uint32_t *seen;                                  /* calls of product k on triple i (shared with the parent) */
static void product(int k, int32_t *c_, int32_t *a_, int32_t *b_) {
  for (int i = 0; i < REPETITIONS; i++)
    if (!memcmp(a_, ka[i], sizeof ka[i]) && !memcmp(b_, kb[i], sizeof kb[i])) {
      seen[(k - 1) * REPETITIONS + i]++;
      memcpy(c_, kc[i], sizeof kc[i]);
      if ((k == wp || wp == 6) && (i == wr || wr == REPETITIONS)) spoil(c_);
      for (int m = 0; m < 1024; m++) a_[m] = b_[m] = -7;  /* products may destroy their arguments */
      return;
    }
  seen[5 * REPETITIONS]++;   /* not one of the triples */
  memset(c_, 0, 4096);
}
void F(1)(int32_t *x, int32_t *y, int32_t *z) { product(1, x, y, z); }
void F(2)(int32_t *x, int32_t *y, int32_t *z) { product(2, x, y, z); }
void F(3)(int32_t *x, int32_t *y, int32_t *z) { product(3, x, y, z); }
void F(4)(int32_t *x, int32_t *y, int32_t *z) { product(4, x, y, z); }
void F(5)(int32_t *x, int32_t *y, int32_t *z) { product(5, x, y, z); }

static void run(void) {
  int st, k, i; uint32_t least = UINT32_MAX;
  memset(seen, 0, 4 * (5 * REPETITIONS + 1));
  fflush(hx_out);
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    hx_uncatch(); alarm(60);
    st = kat_main(); fflush(NULL); _exit(st);
  }
  waitpid(pid, &st, 0); hx_calls++;
  for (k = 0; k < 5; k++) for (i = 0; i < REPETITIONS; i++) if (seen[k * REPETITIONS + i] < least) least = seen[k * REPETITIONS + i];
  ev_open("katrun"); ev_s("op", PNAME); ev_i("wrong", wp < 0 ? 0 : 1); ev_i("product", wp); ev_i("triple", wr); ev_i("at", wj); ev_i("by", wd); ev_i("kind", wk);
  ev_i("least", least); ev_i("foreign", seen[5 * REPETITIONS]); ev_i("status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000); ev_end();
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]);
  hx_seed(strtoull(argv[2], NULL, 10) * 131 + part);
  alarm(hx_limit());
  seen = mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (seen == MAP_FAILED) return 3;
  WHERE("build_kat");
  build_kat();
  for (int i = 0; i < REPETITIONS; i++) { memcpy(ka[i], a[i], 4096); memcpy(kb[i], b[i], 4096); memcpy(kc[i], c[i], 4096); }
#if KIND == 1
  for (uint32_t i = part; i < REPETITIONS; i += nparts) {
    ev_open("prod"); ev_s("fam", "kat"); ev_s("op", "build_kat"); ev_i("n", 1024); ev_i("triple", i); ev_v("a", ka[i], 1024); ev_v("b", kb[i], 1024); ev_v("c", kc[i], 1024); ev_end();
  }
  if (part == 0) { /* how many different first and second operands, and how many that are zero somewhere only */
    int32_t first[REPETITIONS], second[REPETITIONS];
    for (int i = 0; i < REPETITIONS; i++) {
      first[i] = second[i] = i;
      for (int m = 0; m < i; m++) { if (first[i] == i && !memcmp(ka[i], ka[m], 4096)) first[i] = m; if (second[i] == i && !memcmp(kb[i], kb[m], 4096)) second[i] = m; }
    }
    ev_open("katdist"); ev_s("op", "build_kat"); ev_v("first", first, REPETITIONS); ev_v("second", second, REPETITIONS); ev_end();
  }
#endif
  WHERE(PNAME);
  if (part == 0) run();
  static const int32_t D[] = { 1, -1, HQ, -HQ, 1 << 16, 256, INT32_MIN };
  for (uint32_t w = 0; w < 136 * weight; w++) { /* 8 parts: every product on every triple, every coefficient */
    uint32_t x = part + nparts * w;
    wp = 1 + (int) (x % 5); wr = (int) (x / 5 % REPETITIONS); wj = (int) ((37 * x + hx_hash(argv[2])) % 1024); wd = D[rnd(7)];
    run();
  }
  for (uint32_t w = 0; w < 30 * weight; w++) {
    wk = 1 + (int) ((w + part) % (K_COUNT - 1));
    wp = 1 + (int) rnd(6); wr = (int) rnd(REPETITIONS + (wp == 6 ? 20 : 1)); wj = (int) rnd(1024); wd = D[rnd(6)];   /* 6, REPETITIONS: all */
    if (wr > REPETITIONS) wr = REPETITIONS;
    run();
  }
  hx_finish();
  return 0;
}
