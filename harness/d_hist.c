/*
 * Replay of histories generated from LibraryGen.tla. The contents of the
 * buffers after each call are recorded, with what the same call on the same
 * arguments gives in a process that has made no other call.
 * usage: d_hist OUT IN SEED PART NPARTS CAP
 * IN: lines "H" (new history) and "f k n r d a b w"
 */
#include "ops.h"
#include <sys/wait.h>
/* ---- a process without a past: forks a child for each request ---- */
static req_t *R;
static int to[2], from[2];
static uint32_t cap;
static void zygote(void) {
  char c;
  close(to[1]); close(from[0]);
  while (read(to[0], &c, 1) == 1) {
    R->done = 0;
    pid_t p = fork();
    if (p == 0) {
      signal(SIGSEGV, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGABRT, SIG_DFL);
      alarm(60);
      int32_t *m = aligned_alloc(64, 4 * (3 * MAXCAP + 64));
      int32_t *x[3];
      for (int i = 0; i < 3; i++) { x[i] = m + i * (MAXCAP + 16) + 3 * i + 1; memcpy(x[i], R->in[i], cap * 4); }
      tab_t *t = malloc(sizeof R->tab);
      memcpy(t, R->tab, sizeof R->tab);
      perform(R, t, x[0], x[1], x[2]);
      for (int i = 0; i < 3; i++) memcpy(R->out[i], x[i], cap * 4);
      R->done = 1;
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (write(from[1], "x", 1) != 1) _exit(1);
  }
  _exit(0);
}
static void load(int32_t *a, int64_t lo, int64_t hi, uint32_t cls) { fill(a, cap, (int32_t) lo, (int32_t) hi, cls); }

int main(int argc, char **argv) {
  if (argc != 7) return 2;
  uint32_t part = (uint32_t) atoi(argv[4]), nparts = (uint32_t) atoi(argv[5]);
  uint64_t seed = strtoull(argv[3], NULL, 10);
  cap = (uint32_t) atoi(argv[6]);
  R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (R == MAP_FAILED || pipe(to) || pipe(from)) return 3;
  pid_t z = fork();
  if (z == 0) zygote();
  close(to[0]); close(from[1]);
  hx_init(argv[1]); hx_catch();
  alarm(hx_limit());
  FILE *in = fopen(argv[2], "r");
  if (!in) return 3;
  /* four buffers with margins, a table that is rebuilt in place */
  static int32_t *base, *B[5], *old[5], *m0;
  size_t total = 4 * (MAXCAP + 64) + 64;
  base = aligned_alloc(64, 4 * total);
  m0 = malloc(4 * total);
  static tab_t tab[MAXCAP + 64];
  char line[256], f[16];
  uint32_t hno = 0;
  bool mine = false, open = false, first = true;
  (void) old;
  while (fgets(line, sizeof line, in)) {
    if (line[0] == 'H') {
      if (open) { fputs("]}\n", hx_out); open = false; }
      mine = hno++ % nparts == part;
      if (mine) {
        hx_seed(seed * 7919 + hno);
        fprintf(hx_out, "{\"k\":\"hist\",\"fam\":\"%s\",\"calls\":[", FAMNAME); hx_events++;
        open = true; first = true;
        for (int i = 1; i <= 4; i++) B[i] = base + (i - 1) * (MAXCAP + 64) + 16 + rnd(16);
        for (size_t i = 0; i < total; i++) base[i] = (int32_t) rnd64();
      }
      continue;
    }
    if (!mine) continue;
    int k, d, w, a, b; uint32_t n, r; 
    if (sscanf(line, "%15s %d %u %u %d %d %d %d", f, &k, &n, &r, &d, &a, &b, &w) != 8) return 3;
    if (!first) fputc(',', hx_out);
    first = false;
    if (!strcmp(f, "load")) {
      load(B[d], a, b, (uint32_t) k);
      fprintf(hx_out, "{\"f\":\"load\",\"n\":%u,\"s\":[],\"d\":[%d],\"chg\":[]", cap, d);
      fputs(",\"v\":[[", hx_out);
      for (uint32_t i = 0; i < cap; i++) fprintf(hx_out, i ? ",%d" : "%d", B[d][i]);
      fputs("]],\"fresh\":[]}", hx_out);
      continue;
    }
    memset(R, 0, sizeof *R);
    for (R->f = 0; strcmp(fname[R->f], f); R->f++) if (R->f == F_SHUFT) return 3;
    R->k = k; R->n = n; R->w = w;
    const char *jf = f, *jop = "";
    int src[2] = { d, 0 }, nsrc = 1, dst[3] = { d, 0, 0 }, ndst = 1;
    uint32_t wl = 0;
    memset(tab, 0, sizeof tab);
    if (R->f == F_XF) { R->root = hroot(n, r); build_tab(tab, &gen_ops[k], n, R->root); }
    if (R->f == F_WRAP) { R->root = wrap_of(n, k)->inv ? hinv(param_psi(n)) : param_psi(n); jf = "xf"; }
    if (R->f == F_PROD) { R->root = param_psi(n); src[0] = a; src[1] = b; nsrc = 2; dst[1] = a; dst[2] = b; ndst = 3; }
    if (R->f == F_MUL2) { src[0] = a; src[1] = b; nsrc = 2; }
    if (R->f == F_MUL16) { for (uint32_t i = 0; i < n; i++) tab[i] = (tab_t) (ISRED ? special(-6144, 6144) : rnd(2) ? special(0, HQ - 1) : (int32_t) rnd(HQ)); wl = n; }
    if (R->f == F_SCALAR) wl = 1;
    if (R->f == F_SHUFT) jf = "shuf";
    if (R->f == F_MUL16 || R->f == F_SCALAR || R->f == F_MUL2) jop = ISRED ? "mulred" : "mulmod";
#if ISRED
    if (R->f == F_UN) jop = unname[k];
#endif
    memcpy(R->tab, tab, sizeof tab);
    memcpy(R->in[0], B[d], cap * 4);
    if (a) memcpy(R->in[1], B[a], cap * 4);
    if (b) memcpy(R->in[2], B[b], cap * 4);
    memcpy(m0, base, 4 * total);
    WHERE("%s history %u: %s", FAMNAME, hno, line);
    perform(R, tab, B[d], a ? B[a] : NULL, b ? B[b] : NULL);
    hx_calls++;
    char c;
    if (write(to[1], "x", 1) != 1 || read(from[0], &c, 1) != 1) return 3;
    hx_calls++;
    fprintf(hx_out, "{\"f\":\"%s\",\"op\":\"%s\",\"k\":%d,\"n\":%u", jf, jop, k, n);
    if (R->root) fprintf(hx_out, ",\"root\":%d", R->root);
    if (R->f == F_XF) { ev_s("alg", alg_name[gen_ops[k].alg]); ev_s("comb", comb_name[gen_ops[k].comb]); }
    if (R->f == F_WRAP) { ev_s("alg", alg_name[wrap_of(n, k)->alg]); ev_s("comb", comb_name[wrap_of(n, k)->comb]); }
    static int32_t wv[MAXCAP];
    for (uint32_t i = 0; i < wl; i++) wv[i] = R->f == F_SCALAR ? w : tab[i];
    if (wl) ev_v("w", wv, wl);
    int32_t dd[3] = { dst[0], dst[1], dst[2] }, ss[2] = { src[0], src[1] };
    ev_v("s", ss, (uint32_t) nsrc); ev_v("d", dd, (uint32_t) ndst);
    /* which buffers changed; 0: memory between the buffers */
    int32_t chg[5]; uint32_t nc = 0;
    for (int i = 1; i <= 4; i++) if (memcmp(B[i], m0 + (B[i] - base), cap * 4)) chg[nc++] = i;
    for (size_t i = 0; i < total; i++) if (base[i] != m0[i]) {
      bool inside = false;
      for (int q = 1; q <= 4; q++) if (base + i >= B[q] && base + i < B[q] + cap) inside = true;
      if (!inside) { chg[nc++] = 0; break; }
    }
    ev_v("chg", chg, nc);
    fputs(",\"v\":[", hx_out);
    for (int i = 0; i < ndst; i++) {
      fputs(i ? ",[" : "[", hx_out);
      for (uint32_t j = 0; j < cap; j++) fprintf(hx_out, j ? ",%d" : "%d", B[dst[i]][j]);
      fputc(']', hx_out);
    }
    fputs("],\"fresh\":[", hx_out);
    if (R->done) for (int i = 0; i < ndst; i++) {
      fputs(i ? ",[" : "[", hx_out);
      for (uint32_t j = 0; j < cap; j++) fprintf(hx_out, j ? ",%d" : "%d", R->out[i][j]);
      fputc(']', hx_out);
    }
    fputs("]}", hx_out);
  }
  if (open) fputs("]}\n", hx_out);
  close(to[1]);
  hx_finish();
  return 0;
}
