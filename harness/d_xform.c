/*
 * Transforms: generic functions (MODE 0) and size-specialised wrappers (MODE 1).
 * usage: d_xform OUT SEED WEIGHT PART NPARTS MODE
 */
#include "fam.h"
#include "ref.h"
/* only the plain family promises elements in [0 .. Q-1] */
#define NOCANON (FAM != 1)

static tab_t *tab, *tabcopy;
static int32_t *buf;       /* n elements, ended by a guard page or preceded by one */
static uint32_t part, nparts, weight;
static uint64_t raw_budget;

typedef struct { const char *name; int alg, comb; uint32_t n; int32_t root; const gen_op *g; const wrap_op *w; } op_t;

static void call(const op_t *o, int32_t *a) {
  hx_calls++;
  if (o->g) o->g->f(a, o->n, tab); else o->w->f(a);
}
static void ev_op(const char *k, const op_t *o) {
  ev_open(k); ev_s("fam", FAMNAME); ev_s("op", o->name); ev_s("alg", alg_name[o->alg]); ev_s("comb", comb_name[o->comb]);
  ev_i("n", o->n); ev_i("root", o->root); ev_i("canon", NOCANON ? 0 : 1);
}
static void ev_raw(const op_t *o, const int32_t *in, const int32_t *out) {
  ev_op("xf", o); ev_v("in", in, o->n); ev_v("out", out, o->n); ev_end();
}
static bool canonical(const int32_t *a, uint32_t n) {
  for (uint32_t i = 0; i < n; i++) if (a[i] < 0 || a[i] >= HQ) return false;
  return true;
}

/* all columns: image of amp(j) * unit vector j, as first term and ratio of a geometric progression */
static void columns(const op_t *o, int32_t amp0) {
  static int32_t f[MAXN], g[MAXN], am[MAXN], in[MAXN], out[MAXN];
  uint32_t n = o->n, j, i, m = 0;
  static int32_t js[MAXN];
  for (j = 0; j < n; j++) {
    int32_t amp = amp0 ? amp0 : special(INLO, INHI);
    if (res(amp) == 0) amp = 1;
    memset(in, 0, n * 4);
    in[alg_inrev[o->alg] ? hrev(j, n) : j] = amp;
    memcpy(buf, in, n * 4);
    WHERE("%s n=%u root=%d column %u", o->name, n, o->root, j);
    call(o, buf);
    for (i = 0; i < n; i++) out[i] = buf[alg_outrev[o->alg] ? hrev(i, n) : i];
    bool ok = NOCANON || canonical(out, n);
    int32_t x = res(out[0]), r = (int32_t) ((int64_t) res(out[1]) * hinv(x) % HQ), y = x;
    for (i = 0; i < n && ok; i++) { ok = res(out[i]) == y; y = (int32_t) ((int64_t) y * r % HQ); }
    if (ok && x) { js[m] = (int32_t) j; f[m] = x; g[m] = r; am[m] = amp; m++; hx_cases++; }
    else if (raw_budget) { raw_budget--; ev_raw(o, in, buf); }
  }
  ev_op("geo", o); ev_v("j", js, m); ev_v("amp", am, m); ev_v("f", f, m); ev_v("g", g, m); ev_end();
}
static void explainer_columns(const op_t *o) {
  static int32_t f[MAXN], g[MAXN], am[MAXN], js[MAXN], in[MAXN], out[MAXN], y[MAXN];
  uint32_t n = o->n, i, j;
  for (j = 0; j < n; j++) {
    memset(in, 0, n * 4);
    in[alg_inrev[o->alg] ? hrev(j, n) : j] = 1;
    ref_transform(y, in, n, o->root, o->comb, alg_inrev[o->alg], alg_outrev[o->alg]);
    for (i = 0; i < n; i++) out[i] = y[alg_outrev[o->alg] ? hrev(i, n) : i];
    js[j] = (int32_t) j; am[j] = 1; f[j] = out[0]; g[j] = (int32_t) ((int64_t) out[1] * hinv(out[0]) % HQ);
    int32_t z = f[j];
    for (i = 0; i < n; i++) { if (out[i] != z) f[j] = -1; z = (int32_t) ((int64_t) z * g[j] % HQ); }
  }
  ev_open("geo"); ev_s("fam", "explainer"); ev_s("op", o->name); ev_s("alg", alg_name[o->alg]); ev_s("comb", comb_name[o->comb]);
  ev_i("n", n); ev_i("root", o->root); ev_i("canon", 1);
  ev_v("j", js, n); ev_v("amp", am, n); ev_v("f", f, n); ev_v("g", g, n); ev_end();
}
static void one(const op_t *o, const int32_t *in, bool raw) {
  static int32_t y[MAXN];
  uint32_t n = o->n, i;
  memcpy(buf, in, n * 4);
  call(o, buf);
  ref_transform(y, in, n, o->root, o->comb, alg_inrev[o->alg], alg_outrev[o->alg]);
  bool ok = NOCANON || canonical(buf, n);
  for (i = 0; i < n && ok; i++) ok = res(buf[i]) == y[i];
  if (!ok || raw) { if (raw || raw_budget) { if (!raw) raw_budget--; ev_raw(o, in, buf); } }
  else hx_cases++;
}
static void dense(const op_t *o, uint32_t count, uint32_t nraw) {
  static int32_t in[MAXN];
  static double r[MAXN];
  uint32_t n = o->n, c, i, lg = hlog2(n);
  WHERE("%s n=%u root=%d dense", o->name, n, o->root);
  for (c = 0; c < count; c++) {
    uint32_t cls = c < 3 * V_NCLASS ? c : rnd(V_NCLASS + 3);
    if (ISRED && cls >= V_NCLASS) { /* extreme intermediate values */
      uint32_t d = 1 + rnd(lg);
      adjoint(r, n, o->alg, o->comb, o->root, rnd(n), d);
      int32_t s = rnd(2) ? 1 : -1;
      for (i = 0; i < n; i++) in[i] = r[i] == 0 ? (int32_t) rnd_in(INLO, INHI) : (r[i] > 0) == (s > 0) ? INHI : INLO;
    } else {
      int32_t lo = INLO, hi = INHI;
      if (ISRED && rnd(4) == 0) { lo = -6144; hi = 6144; }
      if (ISRED && rnd(4) == 0) { lo = -9216; hi = 21499; }
      if (ISRED && rnd(6) == 0) { lo = 0; hi = HQ - 1; }
      fill(in, n, lo, hi, cls);
    }
    one(o, in, c < nraw);
  }
}
/* the largest intermediate values, of both signs, of rounds from..lg */
static void extremes(const op_t *o, uint32_t from) {
  static int32_t in[MAXN];
  static double r[MAXN];
  uint32_t n = o->n, i, m, k, lg = hlog2(n), at[12][3] = { 0 };
  WHERE("%s n=%u root=%d extremes", o->name, n, o->root);
  peaks(n, o->alg, o->comb, o->root, at);
  for (m = from; m < lg; m++) for (k = 0; k < 3; k++) {
    /* the multiplicand of a round of the ct networks is an element before the round */
    uint32_t rounds = adj_ct(o->alg) && k ? m : m + 1;
    if (k == 2 && at[m][2] == at[m][1]) continue;
    adjoint(r, n, o->alg, o->comb, o->root, at[m][k], rounds);
    for (int sg = 0; sg < 2; sg++) {
      for (i = 0; i < n; i++) in[i] = r[i] == 0 ? (int32_t) rnd_in(INLO, INHI) : (r[i] > 0) == sg ? INHI : INLO;
      one(o, in, false);
    }
  }
}
/* every admissible value, at every position over time */
static void values(const op_t *o, uint32_t step) {
  static int32_t in[MAXN];
  uint32_t n = o->n, i;
  WHERE("%s n=%u root=%d values", o->name, n, o->root);
  for (int64_t v = INLO; v <= INHI; v += step) {
    for (i = 0; i < n; i++) { int64_t z = v + i * step; in[i] = (int32_t) (z > INHI ? INLO + (z - INHI - 1) % (INHI - INLO + 1) : z); }
    one(o, in, false);
    for (i = 0; i < n; i++) in[i] = (int32_t) v;
    one(o, in, false);
    v += step * (n - 1);
  }
}
/*
 * Every multiple of one vector: the transform is linear, so that every node of
 * the network takes every residue (the factor at each node runs through all of
 * them), with every representation of the inputs in the documented range.
 */
static void multiples(const op_t *o, uint32_t step) {
  static int32_t v[MAXN], t[MAXN], in[MAXN];
  uint32_t n = o->n, i;
  WHERE("%s n=%u root=%d multiples", o->name, n, o->root);
  for (i = 0; i < n; i++) v[i] = (int32_t) (1 + rnd(HQ - 1));
  ref_transform(t, v, n, o->root, o->comb, alg_inrev[o->alg], alg_outrev[o->alg]);
  for (int32_t c = (int32_t) rnd(step); c < HQ; c += (int32_t) step) {
    uint32_t how = ISRED ? rnd(4) : 0;
    for (i = 0; i < n; i++) {
      int32_t x = (int32_t) ((int64_t) c * v[i] % HQ);
      if (how == 1 && x > HQ / 2) x -= HQ;
      if (how >= 2) { int32_t k = (int32_t) rnd(4) - 2; if (x + k * HQ >= INLO && x + k * HQ <= INHI) x += k * HQ; }
      in[i] = x;
    }
    memcpy(buf, in, n * 4);
    call(o, buf);
    bool ok = NOCANON || canonical(buf, n);
    for (i = 0; i < n && ok; i++) ok = res(buf[i]) == (int32_t) ((int64_t) c * t[i] % HQ);
    if (ok) hx_cases++;
    else if (raw_budget) { raw_budget--; ev_raw(o, in, buf); }
  }
}
/* the naive transforms take quadratic time */
static uint32_t stride(uint32_t n, bool rare) { return FAM == 2 && n > 32 ? n * n / 256 : rare ? 4 : 1; }

int main(int argc, char **argv) {
  if (argc != 7) return 2;
  hx_init(argv[1]); hx_catch();
  weight = (uint32_t) atoi(argv[3]); part = (uint32_t) atoi(argv[4]); nparts = (uint32_t) atoi(argv[5]);
  int mode = atoi(argv[6]);
  uint64_t seed = strtoull(argv[2], NULL, 10);
  raw_budget = 40;
  tab = mmap(NULL, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  uint32_t unit = 0;
  alarm(hx_limit());
  if (mode == 0) {
    for (uint32_t n = FAM == 4 ? 16 : 2; n <= 2048; n <<= 1)
      for (int k = 0; k < NGEN; k++)
        for (uint32_t rep = 0; rep < (n <= 8 ? n : 2); rep++) {
          op_t o = { gen_ops[k].name, gen_ops[k].alg, gen_ops[k].comb, n, 0, &gen_ops[k], NULL };
          if ((unit++ % nparts) != part) continue;
          hx_seed(seed ^ hx_hash(o.name) ^ (n * 131u + rep));
          static const uint32_t lib[][2] = { { 16, 1212 }, { 256, 1002 }, { 512, 1003 }, { 1024, 1014 } };
          o.root = hroot(n, n <= 8 ? 2 * rep + 1 : 2 * rnd(n) + 1);
          if (rep == 0) for (int i = 0; i < 4; i++) if (lib[i][0] == n) o.root = (int32_t) lib[i][1];
          mprotect(tab, 16384, PROT_READ | PROT_WRITE);
          build_tab(tab, &gen_ops[k], n, o.root);
          mprotect(tab, 16384, PROT_READ);
          /* 32-byte aligned buffer, or any other alignment of int32_t */
          static int32_t *base;
          if (!base) base = aligned_alloc(64, 64 * 1024);
          buf = base + (rep == 0 ? 0 : rnd(16));
          columns(&o, rep == 0 ? 1 : 0);
          if (rep == 0 || n <= 8) explainer_columns(&o);
          dense(&o, (n >= 512 ? 40 : n >= 64 ? 100 : 400) * weight, n >= 512 ? 1 : 2);
          if (ISRED) extremes(&o, 0);
          values(&o, 1);
          if (rep == 0 || n <= 8) multiples(&o, stride(n, n > 128 && rep));
          /* every root of this size */
          if (rep == 0 && n > 8) for (uint32_t k2 = 0; k2 < n; k2 += FAM == 2 && n > 128 ? 1 + rnd(n / 8) : 1) {
            o.root = hroot(n, 2 * k2 + 1);
            mprotect(tab, 16384, PROT_READ | PROT_WRITE);
            build_tab(tab, &gen_ops[k], n, o.root);
            mprotect(tab, 16384, PROT_READ);
            dense(&o, n > 256 ? 2 : 4, 0);
            if (ISRED) extremes(&o, hlog2(n) - (n > 256 ? 1 : 3));
          }
        }
  } else {
    for (int k = 0; k < NWRAP; k++) {
      uint32_t n = wrap_ops[k].n;
      int32_t psi = param_psi(n);
      op_t o = { wrap_ops[k].name, wrap_ops[k].alg, wrap_ops[k].comb, n, 0, NULL, &wrap_ops[k] };
      if ((unit++ % nparts) != part) continue;
      hx_seed(seed ^ hx_hash(o.name) ^ n);
      o.root = wrap_ops[k].inv ? hinv(psi) : psi;
      static int32_t *base;
      if (!base) base = aligned_alloc(64, 64 * 1024);
      buf = base;
      columns(&o, 1);
      buf = base + rnd(16);
      columns(&o, 0);
      explainer_columns(&o);
      dense(&o, (n >= 512 ? 100 : 400) * weight, 2);
      if (ISRED) extremes(&o, 0);
      values(&o, 1);
      multiples(&o, stride(n, false));
      /* round trip: the documented pairs, inverse after forward = n * a */
      for (int q = 0; q < NWRAP; q++) {
        const wrap_op *f = &wrap_ops[k], *g = &wrap_ops[q];
        if (f->inv || !g->inv || g->n != n || alg_outrev[f->alg] != alg_inrev[g->alg]) continue;
        if ((f->comb == C_MULNTT) != (g->comb == C_NTTMUL)) continue;
        static int32_t in[MAXN];
        for (uint32_t c = 0; c < 24 * weight; c++) {
          int32_t lo = INLO, hi = INHI;
          fill(in, n, lo, hi, c);
          memcpy(buf, in, n * 4);
          WHERE("%s then %s", f->name, g->name);
          f->f(buf); hx_calls++;
          /* the inverse of the red families needs inputs in the documented range */
          if (ISRED) for (uint32_t i = 0; i < n; i++) { buf[i] = res(buf[i]); if (buf[i] > 6144 && (c & 1)) buf[i] -= HQ; }
          g->f(buf); hx_calls++;
          /* both in the same order, as alg_inrev(f) == alg_outrev(g) or not */
          static int32_t x[MAXN];
          for (uint32_t i = 0; i < n; i++) x[i] = in[alg_inrev[f->alg] ? hrev(i, n) : i];
          bool ok = NOCANON || canonical(buf, n);
          for (uint32_t i = 0; i < n && ok; i++) ok = res(buf[alg_outrev[g->alg] ? hrev(i, n) : i]) == res((int64_t) n * x[i]);
          if (ok && c) hx_cases++;
          else if (c == 0 || raw_budget) {
            if (c) raw_budget--;
            ev_open("back"); ev_s("fam", FAMNAME); ev_s("op", f->name); ev_s("op2", g->name); ev_i("n", n);
            ev_i("inrev", alg_inrev[f->alg]); ev_i("outrev", alg_outrev[g->alg]); ev_i("canon", NOCANON ? 0 : 1);
            ev_v("in", in, n); ev_v("out", buf, n); ev_end();
          }
        }
      }
    }
  }
  hx_finish();
  return 0;
}
