/*
 * Bounds on the reduction, interval domain, abstract transforms.
 * usage: d_bounds OUT SEED WEIGHT PART NPARTS MODE SCRATCH
 * MODE 0 red_bounds.h, 1 intervals.h, 2 ntt_red_interval.h
 */
#include "hx.h"
#include <sys/wait.h>
#include <fcntl.h>
#include "red_bounds.h"
#include "intervals.h"
#include "ntt_red_interval.h"

static uint32_t weight, part, nparts;
static uint64_t raw_budget = 60;
static const char *scratch;

/* ---- explainers: exhaustive search (red(w(x+4096)) = red(wx) - w, so a window of 4096 is enough) ---- */
static int64_t xred(int64_t x) { return 3 * (x & 4095) - (x >> 12); }
static int64_t x_ext(int64_t a, int64_t b, int64_t w, bool mx) {
  int64_t lo = a, hi = b, r, x;
  if (w == 0) return 0;
  if (b - a > 4095) { if ((w > 0) == mx) hi = a + 4095; else lo = b - 4095; }
  r = xred(w * lo);
  for (x = lo; x <= hi; x++) { int64_t v = xred(w * x); if (mx ? v > r : v < r) r = v; }
  return r;
}
static int64_t x_ext_iv(int64_t a, int64_t b, int64_t low, int64_t high, bool mx) {
  int64_t r = x_ext(a, b, low, mx), w;
  for (w = low + 1; w <= high; w++) { int64_t v = x_ext(a, b, w, mx); if (mx ? v > r : v < r) r = v; }
  return r;
}
static int64_t max64(int64_t a, int64_t b) { return a > b ? a : b; }
static int64_t x_ct(int64_t b, int64_t lo, int64_t hi) { return max64(b + x_ext_iv(-b, b, lo, hi, true), b - x_ext_iv(-b, b, lo, hi, false)); }
static int64_t x_gs(int64_t b, int64_t lo, int64_t hi) { return max64(2 * b, max64(x_ext_iv(-2 * b, 2 * b, lo, hi, true), -x_ext_iv(-2 * b, 2 * b, lo, hi, false))); }

static int64_t rpick(int bits) { /* all magnitudes, structured values */
  int64_t m = (1ll << (bits - 1)) - 1, v;
  switch (rnd(7)) {
  case 0: v = rnd_in(-m, m); break;
  case 1: v = (int64_t) rnd64() >> (64 - bits + (int) rnd((uint32_t) bits)); break;
  case 2: v = rnd_in(-6144, 6144); break;
  case 3: v = (rnd(2) ? 1ll : -1ll) * ((1ll << rnd((uint32_t) bits - 1)) + (int64_t) rnd(3) - 1); break;
  case 4: v = 4096 * rnd_in(-40, 40) + rnd_in(-2, 2); break;
  case 5: v = special(-21499, 21499); break;
  default: v = rnd_in(-20, 20);
  }
  return v < -m ? -m : v > m ? m : v;
}
static void rrange(int bits, int64_t *a, int64_t *b) {
  *a = rpick(bits);
  switch (rnd(5)) {
  case 0: *b = *a; break;
  case 1: *b = *a + rnd(10); break;
  case 2: *b = *a + rnd(10000); break;
  case 3: *b = -*a; break;
  default: *b = rpick(bits);
  }
  if (*a > *b) { int64_t t = *a; *a = *b; *b = t; }
}
static int64_t abs64(int64_t x) { return x < 0 ? -x : x; }
#define LIM (1ll << 42)
#define LIM2 (1ll << 61)
/* small intervals around 0 and the multiples of 4096, all combinations */
static const int64_t gx[] = { -4097, -4096, -1, 0, 1, 4095, 4096 }, gw[] = { -4096, -2, -1, 0, 1, 2, 4096 };
#define NG 7
static bool grid(uint32_t r, int64_t *a, int64_t *b, int64_t *low, int64_t *high) {
  *a = gx[r % NG]; *b = gx[r / NG % NG]; *low = gw[r / (NG * NG) % NG]; *high = gw[r / (NG * NG * NG) % NG];
  return *a <= *b && *low <= *high && *high - *low <= 4098;
}
#define GRID (NG * NG * NG * NG)

/* earlier arguments come back, whole or with one of them changed: a result depends on the arguments only */
typedef struct { int64_t v[4]; } args_t;
static args_t ring[64];
static uint32_t nring;
static void again(int nargs, int64_t *v0, int64_t *v1, int64_t *v2, int64_t *v3, bool ivs) {
  int64_t *v[4] = { v0, v1, v2, v3 };
  uint32_t k = nring < 64 ? nring : 64;
  int i;
  if (k && rnd(3) == 0) {
    args_t *q = &ring[rnd(2) ? (nring - 1 - rnd(k < 3 ? k : 3)) % 64 : rnd(k)];
    int64_t keep[4];
    for (i = 0; i < nargs; i++) { keep[i] = *v[i]; *v[i] = q->v[i]; }
    switch (rnd(ivs ? 5 : nargs > 2 ? 5 : 4)) {
    case 0: case 1: break;
    case 2: *v1 += rnd(2) ? 1 : rnd(4) ? rnd(50) : rnd(2) ? 1ll << 32 : 1 << 16; break;
    case 3: *v0 -= rnd(2) ? 1 : rnd(4) ? rnd(50) : rnd(2) ? 1ll << 32 : 1 << 16; break;
    default: if (ivs) *v3 += rnd(4); else *v2 = rnd(2) ? -*v2 : (keep[2] & 4095); break;
    }
  } else {
    for (i = 0; i < nargs; i++) ring[nring % 64].v[i] = *v[i];
    nring++;
  }
}

/* ---- red_bounds ---- */
static void bounds(void) {
  uint32_t r;
  int64_t a, b, v, m, w, low, high, mw;
  int op;
  hx_seed(hx_state + part);
  WHERE("max_red/min_red");
  for (r = 0; r < 400 * weight; r++) { /* 64-bit arguments, all recorded */
    rrange(r % 3 ? 62 : 31, &a, &b);
    if (r % 4 == 0) { b = a + rnd(9000); }
    again(2, &a, &b, NULL, NULL, false);
    op = (int) (r & 1);
    v = op ? max_red(a, b, &m) : min_red(a, b, &m); hx_calls++;
    ev_open("mred"); ev_s("op", op ? "max_red" : "min_red"); ev_w("a", a); ev_w("b", b); ev_w("v", v); ev_w("m", m); ev_end();
  }
  for (r = 0, nring = 0; r < 60000 * weight; r++) {
    rrange(31, &a, &b);
    w = r % 7 == 0 ? rpick(16) : rnd(3) ? rnd_in(-6144, 6144) : (int64_t) rnd(200) - 100;
    if (max64(abs64(a), abs64(b)) * abs64(w) >= LIM) { a >>= 12; b >>= 12; }
    if (abs64(a) > (1 << 29) || abs64(b) > (1 << 29)) { a >>= 2; b >>= 2; }
    if (r % 5 == 4) { /* far beyond 32 bits */
      rrange(46, &a, &b);
      if (r % 3) { b = a + rnd(9000); }
      if (abs64(w) > 32767) w >>= 1;
    }
    again(3, &a, &b, &w, NULL, false);
    op = (int) (r & 1);
    WHERE("%s(%" PRId64 ", %" PRId64 ", %" PRId64 ")", op ? "max_red_mul" : "min_red_mul", a, b, w);
    alarm(20);
    v = op ? max_red_mul(a, b, w, &m) : min_red_mul(a, b, w, &m); hx_calls++;
    bool ok = a <= m && m <= b && v == xred(w * m) && v == x_ext(a, b, w, op);
    if (r < 150 || (!ok && raw_budget)) {
      if (r >= 150) raw_budget--;
      ev_open("mmul"); ev_s("op", op ? "max_red_mul" : "min_red_mul"); ev_w("a", a); ev_w("b", b); ev_i("w", w);
      ev_w("v", v); ev_w("m", m); ev_end();
    } else if (ok) hx_cases++;
  }
  for (r = 0, nring = 0; r < 3000 * weight + 2 * GRID; r++) {
    rrange(r % 2 ? 22 : r % 8 ? 15 : 44, &a, &b);
    low = rnd(2) ? rnd_in(-6144, 6144) : (int64_t) rnd(60) - 30; high = low + (r < 60 ? rnd(20) : r % 20 == 0 ? rnd(3000) : rnd(200));
    if (r % 50 == 1 && r > 60) { low = -6144; high = 6144; }
    if (r % 50 == 2) { low = -32768; high = -32700; }
    else again(4, &a, &b, &low, &high, true);
    op = (int) (rnd(2));
    if (r >= 3000 * weight) {
      op = (int) (r & 1);
      if (!grid((r - 3000 * weight) >> 1, &a, &b, &low, &high)) continue;
    }
    WHERE("%s(%" PRId64 ", %" PRId64 ", %" PRId64 ", %" PRId64 ")", op ? "max_red_mul_interval" : "min_red_mul_interval", a, b, low, high);
    alarm(60);
    v = op ? max_red_mul_interval(a, b, low, high, &m, &mw) : min_red_mul_interval(a, b, low, high, &m, &mw); hx_calls++;
    bool ok = a <= m && m <= b && low <= mw && mw <= high && v == xred(mw * m) && v == x_ext_iv(a, b, low, high, op);
    if (r < 60 || (!ok && raw_budget)) {
      if (r >= 60) raw_budget--;
      if (!ok && high - low > 400) { /* shrink: a witness is enough for the specification to refuse the record */
        ev_open("mwit"); ev_s("op", op ? "max_red_mul_interval" : "min_red_mul_interval");
        int64_t best = 0, bw = low, bx = a, ww; bool first = true;
        for (ww = low; ww <= high; ww++) { int64_t t = x_ext(a, b, ww, op); if (first || (op ? t > best : t < best)) { best = t; bw = ww; first = false; } }
        for (int64_t x = a; x <= b; x++) if (xred(bw * x) == best) { bx = x; break; }
        ev_w("a", a); ev_w("b", b); ev_i("low", low); ev_i("high", high); ev_w("v", v); ev_w("m", m); ev_w("mw", mw); ev_w("x", bx); ev_i("w", bw); ev_end();
      } else {
        ev_open("mmulw"); ev_s("op", op ? "max_red_mul_interval" : "min_red_mul_interval"); ev_w("a", a); ev_w("b", b); ev_i("low", low); ev_i("high", high);
        ev_w("v", v); ev_w("m", m); ev_w("mw", mw); ev_end();
      }
    } else if (ok) hx_cases++;
  }
  memset(ring, 0, sizeof ring);
  for (r = 0; r < 8000 * weight + 4 * GRID; r++) {
    static const char *const nm[] = { "ct_bound", "gs_bound", "ct_bound_fixed", "gs_bound_fixed" };
    op = (int) (r % 4);
    b = abs64(rpick(op < 2 ? 18 : 29)); w = rnd(4) ? rnd_in(-6144, 6144) : rpick(16);
    if (b * abs64(w) >= LIM) b >>= 8;
    low = high = w;
    if (op < 2) high = low + (r < 60 ? rnd(12) : rnd(64));
    if (op < 2 && r % 400 >= 398) { low = -6144; high = 6144; }
    if (op >= 2 && r % 3 == 0) b = abs64(rpick(44));
    if (rnd(3) == 0 && r > 4) { args_t *q = &ring[(r - 4 * (1 + rnd(3))) % 64]; if (rnd(2)) b = q->v[0]; if (rnd(2)) { low = q->v[1]; high = q->v[2]; w = low; } if (b * abs64(low) >= LIM) b >>= 12; }
    ring[r % 64].v[0] = b; ring[r % 64].v[1] = low; ring[r % 64].v[2] = high;
    if (r >= 8000 * weight) {
      if (!grid((r - 8000 * weight) >> 2, &b, &a, &low, &high) || b < 0) continue;
      if (a != b) continue;
      if (op >= 2) { if (low != high) continue; w = low; }
    }
    WHERE("%s(%" PRId64 ", %" PRId64 ", %" PRId64 ")", nm[op], b, low, high);
    alarm(60);
    v = op == 0 ? ct_bound(b, low, high) : op == 1 ? gs_bound(b, low, high) : op == 2 ? ct_bound_fixed(b, w) : gs_bound_fixed(b, w); hx_calls++;
    bool ok = v == (op == 0 || op == 2 ? x_ct(b, low, high) : x_gs(b, low, high));
    if (r < 60 || (!ok && raw_budget)) {
      if (r >= 60) raw_budget--;
      if (high - low > 400) { /* one factor whose bound is not covered */
        int64_t ww, bw = low;
        for (ww = low; ww <= high; ww++) if ((op == 0 ? x_ct(b, ww, ww) : x_gs(b, ww, ww)) > v) { bw = ww; break; }
        ev_open("stepwit"); ev_i("w", bw);
      } else ev_open("step");
      ev_s("op", nm[op]); ev_w("b", b); ev_i("low", low); ev_i("high", high); ev_w("v", v); ev_end();
    } else if (ok) hx_cases++;
  }
  for (r = 0; r < 60 * weight; r++) { /* whole transforms */
    static int16_t p[2048];
    static int32_t p32[2048];
    int64_t bd[20], e;
    uint32_t n = 2u << (r < 12 ? rnd(4) : rnd(10)), k, t, j, lg = hlog2(n);
    op = (int) rnd(2);
    for (k = 0; k < n; k++) p32[k] = p[k] = (int16_t) (rnd(8) ? rnd_in(-6144, 6144) : rnd_in(-60, 60));
    p[0] = (int16_t) (rnd(2) ? 0 : 32767); p32[0] = p[0]; /* not used */
    int64_t b0 = rnd(3) ? 21499 : (int64_t) rnd(13000);
    for (k = 0; k < 20; k++) bd[k] = -7;
    WHERE("ntt_%s_bounds n=%u", op ? "gs" : "ct", n);
    alarm(60);
    v = op ? ntt_gs_bounds(b0, n, p, bd) : ntt_ct_bounds(b0, n, p, bd); hx_calls++;
    bool ok = bd[0] == b0 && v == bd[lg] && bd[lg + 1] == -7;
    e = b0;
    for (k = 1; k <= lg && ok; k++) {
      int64_t c = 0;
      t = op ? n >> k : 1u << (k - 1);
      for (j = 0; j < t; j++) c = max64(c, op ? x_gs(e, p[t + j], p[t + j]) : x_ct(e, p[t + j], p[t + j]));
      ok = bd[k] == c; e = c;
    }
    if (r < 12 || (!ok && raw_budget)) {
      if (r >= 12) raw_budget--;
      ev_open("nttb"); ev_s("op", op ? "gs" : "ct"); ev_i("n", n); ev_v("p", p32, n); ev_w("b0", b0); ev_wv("bd", bd, lg + 1); ev_w("v", v); ev_i("past", bd[lg + 1] == -7 ? 0 : 1); ev_end();
    } else if (ok) hx_cases++;
  }
}

/* ---- intervals ---- */
typedef struct { int status; interval_t r; bool distinct; } out_t;  /* status: 0 returned, 1 stopped with an error */
enum { I_POINT, I_INTERVAL, I_ADD, I_SUB, I_NEG, I_RED, I_TWICE, I_MUL, I_SCALE, I_NORMAL, I_INV3, I_SHIFT, I_CORRECT };
static const char *const iname[] = { "point", "interval", "add", "sub", "neg", "red", "red_twice", "red_mul", "red_scale", "normal", "normal_inv3", "shift", "correct" };
static interval_t *irun(int op, interval_t *a, interval_t *b, int64_t k) {
  hx_calls++;
  switch (op) {
  case I_POINT: return point(a->min);
  case I_INTERVAL: return interval(a->min, a->max);
  case I_ADD: return add(a, b);
  case I_SUB: return sub(a, b);
  case I_NEG: return neg(a);
  case I_RED: return red(a);
  case I_TWICE: return red_twice(a);
  case I_MUL: return red_mul(a, b);
  case I_SCALE: return red_scale(k, a);
  case I_NORMAL: return normal(a);
  case I_INV3: return normal_inv3(a);
  case I_SHIFT: return shift(a);
  default: return correct(a);
  }
}
static out_t iforked(int op, interval_t *a, interval_t *b, int64_t k) {
  out_t o = { 1, { 0, 0 }, false };
  int fd[2];
  if (pipe(fd)) _exit(3);
  fflush(hx_out);
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    hx_uncatch(); alarm(20);
    interval_t *r = irun(op, a, b, k);
    if (write(fd[1], r, sizeof *r) != sizeof *r) _exit(9);
    _exit(0);
  }
  hx_calls++;
  close(fd[1]);
  ssize_t got = read(fd[0], &o.r, sizeof o.r);
  close(fd[0]);
  int st;
  waitpid(pid, &st, 0);
  if (got == (ssize_t) sizeof o.r && WIFEXITED(st) && WEXITSTATUS(st) == 0) o.status = 0;
  else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) o.status = 2;   /* crash or timeout, not a report */
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.status = 3;        /* ended as if all was well */
  return o;
}
static void ev_iv(int op, const interval_t *a, const interval_t *b, int64_t k, const out_t *o) {
  ev_open("iv"); ev_s("op", iname[op]); ev_w("al", a->min); ev_w("ah", a->max); ev_w("bl", b->min); ev_w("bh", b->max); ev_w("s", k);
  ev_i("status", o->status); ev_w("l", o->r.min); ev_w("h", o->r.max); ev_end();
}
static int64_t xmodq(int64_t x) { int64_t r = x % HQ; return r < 0 ? r + HQ : r; }
/* exhaustive hull of f over [a, b] */
static int64_t pf(int op, int64_t x) {
  switch (op) {
  case I_RED: return xred(x);
  case I_TWICE: return xred(xred(x));
  case I_NORMAL: return xmodq(x);
  case I_INV3: return xmodq(xmodq(x) * 8193);
  case I_SHIFT: return x > 6144 ? x - HQ : x;
  default: return x < 0 ? x + HQ : x >= HQ ? x - HQ : x;
  }
}
static void intervals(void) {
  uint32_t r;
  hx_seed(hx_state + 1000 + part);
  nring = 0;
  for (r = 0; r < 1200 * weight; r++) { /* 64-bit arguments, recorded in full: report or exact result */
    static const int ops[] = { I_ADD, I_SUB, I_NEG, I_INTERVAL, I_POINT, I_RED, I_NORMAL, I_ADD, I_SUB, I_TWICE };
    int op = ops[r % 10];
    interval_t a, b;
    static const int64_t ex[] = { INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, 0, -1, 1, INT64_MIN / 2, INT64_MAX / 2, INT64_MAX / 2 + 1, INT32_MIN, INT32_MAX };
    int64_t v[4];
    for (int i = 0; i < 4; i++) v[i] = rnd(3) == 0 ? ex[rnd(12)] : rnd(2) ? (int64_t) rnd64() : (int64_t) rnd64() >> rnd(60);
    a.min = v[0]; a.max = v[1]; b.min = v[2]; b.max = v[3];
    if (op != I_INTERVAL || rnd(2)) {
      if (a.min > a.max) { a.min = v[1]; a.max = v[0]; }
    }
    if (b.min > b.max) { b.min = v[3]; b.max = v[2]; }
    if (r % 3 == 0) { /* sums at the very ends of the range */
      b.min = (a.min < 0) == (op == I_ADD || op == I_NEG) ? INT64_MIN - (a.min < 0 ? a.min : 0) : b.min;
      if (op == I_ADD && a.min < 0) b.min = INT64_MIN - a.min + (int64_t) rnd(3) - (a.min != INT64_MIN && rnd(2));
      if (op == I_ADD && a.max > 0) b.max = INT64_MAX - a.max + (rnd(3) == 0 && a.max < INT64_MAX ? 1 : 0);
      if (op == I_SUB && a.max < 0) b.min = a.max < 0 ? (int64_t) ((uint64_t) a.max - (uint64_t) INT64_MAX) : b.min;
      if (b.min > b.max) { int64_t t = b.min; b.min = b.max; b.max = t; }
    }
    if (op == I_TWICE) { a.max = a.min + (a.min < INT64_MAX - 10000 ? rnd(9000) : 0); }
    WHERE("interval operation %s", iname[op]);
    out_t o = iforked(op, &a, &b, 0);
    ev_iv(op, &a, &b, 0, &o);
  }
  for (r = 0; r < 20000 * weight; r++) {
    static const int ops[] = { I_RED, I_TWICE, I_NORMAL, I_INV3, I_SHIFT, I_CORRECT, I_SCALE, I_MUL };
    uint32_t oi = r < 64 ? r % 8 : r / 4 % 8; /* several calls of one operation in a row */
    int op = ops[oi];
    interval_t a, b = { 0, 0 }, *u, *pa;
    int64_t k = 0, x, l, h;
    out_t o = { 0, { 0, 0 }, true };
    switch (op) {
    case I_SHIFT: a.min = rnd(4) ? (int64_t) rnd(HQ) : special(0, HQ - 1); a.max = rnd(2) ? special((int32_t) a.min, HQ - 1) : rnd_in(a.min, HQ - 1); break;
    case I_CORRECT: {
        static const int64_t c[] = { -12289, -12288, -1, 0, 1, 12287, 12288, 12289, 12290, 24577, 24576 };
        a.min = rnd(2) ? c[rnd(11)] : rnd_in(-12289, 24577); a.max = rnd(2) ? c[rnd(11)] : rnd(2) ? a.min + rnd(40) : rnd_in(-12289, 24577);
        if (a.max > 24577) a.max = 24577;
        if (a.min > a.max) { int64_t t = a.min; a.min = a.max; a.max = t; }
        break; }
    case I_SCALE: rrange(rnd(3) ? 28 : 46, &a.min, &a.max); k = rnd(3) ? rnd_in(-6144, 6144) : rpick(14); break;
    case I_MUL: rrange(rnd(3) ? 18 : 44, &a.min, &a.max); b.min = rnd_in(-6144, 6144); b.max = b.min + rnd(r < 200 ? 6 : 60); if (rnd(10) == 0) { b.min = -6144; b.max = -6144 + (int64_t) rnd(400); }
      if (rnd(2)) { interval_t t = a; a = b; b = t; } break;
    default: rrange(24, &a.min, &a.max); if (rnd(3) == 0) { a.min = HQ * rnd_in(-3, 3) + rnd_in(-1, 1); a.max = a.min + (rnd(2) ? HQ - 2 + rnd(3) : rnd(3 * HQ)); } if (a.max - a.min > 20000 && rnd(8)) a.max = a.min + rnd(20000); break;
    }
    { /* operands that have been used before, in another operation or in the same one */
      static struct { interval_t a, b; int64_t k; } old[16][8];
      uint32_t z = r % 4 + r / 32 % 4 * 4;
      if (r >= 160 && rnd(4) == 0) {
        uint32_t y = rnd(2) ? (z & ~3u) + ((z + 3) & 3) : rnd(16);
        if (op != I_SHIFT && op != I_CORRECT && op != I_MUL && rnd(2)) { /* from another unary operation */
          static const int un[] = { 0, 1, 2, 3, 6 }; int o2 = un[rnd(5)];
          int64_t w = old[y][o2].a.max - old[y][o2].a.min;
          if ((op == I_SCALE || w <= 200000) && abs64(old[y][o2].a.min) < (1ll << 40)) a = old[y][o2].a;
        } else { a = old[y][oi].a; b = old[y][oi].b; if (rnd(2)) k = old[y][oi].k; }
        if (op != I_SHIFT && op != I_CORRECT && op != I_MUL && rnd(2)) { int64_t d = rnd(6) ? (int64_t) rnd(3) : rnd(2) ? 1ll << 32 : 1 << 16; if (rnd(2)) a.max += d; else a.min -= d; }
        if (op == I_SCALE && rnd(3) == 0) k = -k;
      }
      old[z][oi].a = a; old[z][oi].b = b; old[z][oi].k = k;
    }
    WHERE("interval operation %s", iname[op]);
    alarm(30);
    pa = interval(a.min, a.max);
    u = irun(op, pa, &b, k);
    o.r = *u;
    bool same = pa->min == a.min && pa->max == a.max && u != pa;
    delete_interval(u); delete_interval(pa);
    bool ok;
    if (op == I_SCALE) { l = x_ext(a.min, a.max, k, false); h = x_ext(a.min, a.max, k, true); ok = l == o.r.min && h == o.r.max; }
    else if (op == I_MUL) {
      interval_t *big = a.max - a.min < b.max - b.min ? &b : &a, *sm = big == &a ? &b : &a;
      l = x_ext_iv(big->min, big->max, sm->min, sm->max, false); h = x_ext_iv(big->min, big->max, sm->min, sm->max, true); ok = l == o.r.min && h == o.r.max;
    } else {
      int64_t top = a.max - a.min > 100000 ? a.min + 50000 : a.max;
      l = h = pf(op, a.min);
      for (x = a.min; x <= top; x++) { int64_t y = pf(op, x); if (y < l) l = y; if (y > h) h = y; }
      for (x = a.max - 50000 > a.min ? a.max - 50000 : a.min; x <= a.max; x++) { int64_t y = pf(op, x); if (y < l) l = y; if (y > h) h = y; }
      ok = o.r.min <= l && h <= o.r.max && (op != I_RED || (o.r.min == l && o.r.max == h));
    }
    if (!same) { ev_open("mem"); ev_s("op", iname[op]); ev_i("touched", 1); ev_end(); }
    if (r < 64 || (!ok && raw_budget)) { if (r >= 64) raw_budget--; ev_iv(op, &a, &b, k, &o); }
    else if (ok) hx_cases++;
  }
}

/* ---- abstract transforms ---- */
typedef void (*abs_t)(interval_t **, uint32_t, const int16_t *);
typedef void (*abs2_t)(interval_t **, uint32_t, const interval_t **);
enum { CT_REV2STD, CT_STD2REV, GS_REV2STD, GS_STD2REV };
static const char *const alg_name[] = { "ct_rev2std", "ct_std2rev", "gs_rev2std", "gs_std2rev" };
static const char *const comb_name[] = { "ntt", "mulntt", "nttmul" };
static const struct { const char *name; int alg, comb; abs_t f; abs2_t g; } ab[] = {
  { "ntt_red_ct_rev2std", CT_REV2STD, 0, abstract_ntt_red_ct_rev2std, abstract2_ntt_red_ct_rev2std },
  { "mulntt_red_ct_rev2std", CT_REV2STD, 1, abstract_mulntt_red_ct_rev2std, abstract2_mulntt_red_ct_rev2std },
  { "ntt_red_ct_std2rev", CT_STD2REV, 0, abstract_ntt_red_ct_std2rev, abstract2_ntt_red_ct_std2rev },
  { "mulntt_red_ct_std2rev", CT_STD2REV, 1, abstract_mulntt_red_ct_std2rev, abstract2_mulntt_red_ct_std2rev },
  { "ntt_red_gs_rev2std", GS_REV2STD, 0, abstract_ntt_red_gs_rev2std, abstract2_ntt_red_gs_rev2std },
  { "nttmul_red_gs_rev2std", GS_REV2STD, 2, abstract_nttmul_red_gs_rev2std, abstract2_nttmul_red_gs_rev2std },
  { "ntt_red_gs_std2rev", GS_STD2REV, 0, abstract_ntt_red_gs_std2rev, abstract2_ntt_red_gs_std2rev },
  { "nttmul_red_gs_std2rev", GS_STD2REV, 2, abstract_nttmul_red_gs_std2rev, abstract2_nttmul_red_gs_std2rev },
};
#define AN 2048
static int64_t L[12][AN], H[12][AN];        /* printed after each round */
static uint8_t WN[12][AN];                   /* warnings printed with them */
static int nshow;
/* what was printed on standard output */
static bool parse(const char *path, uint32_t n) {
  char line[512];
  FILE *f = fopen(path, "r");
  int r = -1; bool inwarn = true; uint32_t i; int64_t l, h;
  if (!f) return false;
  memset(WN, 0, sizeof WN);
  while (fgets(line, sizeof line, f)) {
    char *q = strstr(line, "a[");
    if (!q) continue;
    if (strstr(line, "overflow")) {
      if (sscanf(q, "a[%" SCNu32 "]", &i) == 1 && i < n && r >= 0) WN[r][i] = 1; else { fclose(f); return false; }
      inwarn = true;
    } else if (sscanf(q, "a[%" SCNu32 "] in [%" SCNd64 ", %" SCNd64 "]", &i, &l, &h) == 3 && i < n) {
      if (i == 0) { r++; if (r >= 12) { fclose(f); return false; } }
      if (r < 0) { fclose(f); return false; }
      L[r][i] = l; H[r][i] = h;
    }
  }
  (void) inwarn;
  fclose(f);
  nshow = r + 1;
  return nshow > 0;
}
static int saved = -1;
static void hush(const char *path) {
  fflush(stdout);
  saved = dup(1);
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1); close(fd);
}
static void unhush(void) { fflush(stdout); dup2(saved, 1); close(saved); }
static uint32_t dist(int alg, uint32_t n, uint32_t t) { return alg == CT_REV2STD || alg == GS_STD2REV ? t : n / (2 * t); }
static uint32_t twidx(int alg, uint32_t n, uint32_t t, uint32_t s) { return alg == CT_REV2STD || alg == GS_STD2REV ? s % t : s / (2 * dist(alg, n, t)); }
static void abstracts(void) {
  static interval_t *a[AN];
  static int16_t p[AN];
  static int32_t p32[AN];
  static int64_t pl[AN], ph[AN];
  char path[512];
  snprintf(path, sizeof path, "%s/abs.%u.txt", scratch, part);
  hx_seed(hx_state + 2000 + part);
  uint32_t count = 14 * weight;
  for (uint32_t r = 0; r < count; r++)
    for (uint32_t k = 0; k < 8; k++) {
      bool two = r % 3 == 2;
      uint32_t n = r < 2 ? 2u << rnd(4) : r < 4 ? 8 : r % 7 == 6 ? (two ? 64 : r % 2 ? 2048 : 1024) : 2u << rnd(7), i, lg, t, m;
      int alg = ab[k].alg, comb = ab[k].comb;
      bool ct = alg < 2;
      lg = hlog2(n);
      int32_t root = hpow(41, (4096 / (2 * n)) * (2 * rnd(n) + 1));
      for (t = 1; t < n; t <<= 1) for (i = 0; i < t; i++) {
        uint32_t jj = alg == CT_STD2REV || alg == GS_REV2STD ? hrev(i, t) : i, d = n / (2 * t);
        int32_t w = res((int64_t) hpow(root, comb == 0 ? d * 2 * jj : d * (1 + 2 * jj)) * hinv(3));
        p[t + i] = (int16_t) (w > 6144 ? w - HQ : w);
        if (rnd(16) == 0 && r % 2) p[t + i] = (int16_t) rnd_in(-6144, 6144);
      }
      p[0] = 0;
      for (i = 0; i < n; i++) { p32[i] = p[i]; pl[i] = ph[i] = p[i]; if (two && i) { pl[i] -= rnd(4); ph[i] += rnd(4); } }
      int64_t big = rnd(3) == 0 ? 1ll << (20 + rnd(11)) : 21499;  /* large: overflow must be reported */
      if (two && big > 21499) big = 1ll << (18 + rnd(8));
      for (i = 0; i < n; i++) {
        int64_t l = rnd_in(-big, big), h = rnd_in(-big, big);
        if (rnd(3) == 0) { l = -big; h = big; }
        if (rnd(5) == 0) h = l;
        if (l > h) { int64_t x = l; l = h; h = x; }
        a[i] = interval(l, h); L[0][i] = l; H[0][i] = h;
      }
      static int64_t L0[AN], H0[AN];
      memcpy(L0, L[0], n * 8); memcpy(H0, H[0], n * 8);
      WHERE("abstract%s_%s n=%u", two ? "2" : "", ab[k].name, n);
      alarm(100);
      static interval_t *pi[AN];
      if (two) for (i = 0; i < n; i++) pi[i] = interval(pl[i], ph[i]);
      hush(path);
      if (two) ab[k].g(a, n, (const interval_t **) pi); else ab[k].f(a, n, p);
      unhush(); hx_calls++;
      bool ok = parse(path, n) && nshow == (int) lg + 1;
      /* the last printed intervals are those returned */
      for (i = 0; i < n && ok; i++) ok = L[0][i] == L0[i] && H[0][i] == H0[i] && L[nshow - 1][i] == a[i]->min && H[nshow - 1][i] == a[i]->max;
      if (!ok) { ev_open("absshow"); ev_s("op", ab[k].name); ev_i("n", n); ev_i("shown", nshow); ev_i("returned", 0); ev_end(); }
      for (m = 0; m < lg && ok; m++) {
        t = ct ? 1u << m : 1u << (lg - 1 - m);
        uint32_t d = dist(alg, n, t), s;
        for (s = 0; s < n; s++) if (s % (2 * d) < d) {
          uint32_t j = twidx(alg, n, t, s);
          bool scaled = comb != 0 || j != 0, good;
          int64_t yl = L[m][s], yh = H[m][s], xl = L[m][s + d], xh = H[m][s + d], wl = pl[t + j], wh = ph[t + j], e[4];
          if (ct) {
            int64_t zl = scaled ? x_ext_iv(xl, xh, wl, wh, false) : xl, zh = scaled ? x_ext_iv(xl, xh, wl, wh, true) : xh;
            e[0] = yl + zl; e[1] = yh + zh; e[2] = yl - zh; e[3] = yh - zl;
          } else {
            int64_t zl = yl - xh, zh = yh - xl;
            e[0] = yl + xl; e[1] = yh + xh;
            e[2] = scaled ? x_ext_iv(zl, zh, wl, wh, false) : zl; e[3] = scaled ? x_ext_iv(zl, zh, wl, wh, true) : zh;
          }
          good = e[0] == L[m + 1][s] && e[1] == H[m + 1][s] && e[2] == L[m + 1][s + d] && e[3] == H[m + 1][s + d];
          for (i = 0; i < 2; i++) { uint32_t z = s + (i ? d : 0); good = good && WN[m + 1][z] == (L[m + 1][z] < INT32_MIN || H[m + 1][z] > INT32_MAX) && WN[m][z] == (L[m][z] < INT32_MIN || H[m][z] > INT32_MAX); }
          bool raw = (r < 4 && n <= 16) || rnd(4000) == 0;
          if (raw || (!good && raw_budget)) {
            if (!raw) raw_budget--;
            ev_open("absbf"); ev_s("op", ab[k].name); ev_s("alg", alg_name[alg]); ev_s("comb", comb_name[comb]); ev_i("n", n); ev_i("t", t); ev_i("s", s); ev_i("d", d); ev_i("j", j);
            ev_i("wl", wl); ev_i("wh", wh); ev_w("yl", yl); ev_w("yh", yh); ev_w("xl", xl); ev_w("xh", xh);
            ev_w("ol", L[m + 1][s]); ev_w("oh", H[m + 1][s]); ev_i("ow", WN[m + 1][s]); ev_w("pl", L[m + 1][s + d]); ev_w("ph", H[m + 1][s + d]); ev_i("pw", WN[m + 1][s + d]);
            ev_i("yw", WN[m][s]); ev_i("xw", WN[m][s + d]); ev_end();
          } else if (good) hx_cases++;
        }
      }
      /* the returned intervals against concrete runs of the reduced arithmetic */
      for (i = 0; i < n; i++) { delete_interval(a[i]); if (two) delete_interval(pi[i]); }
    }
  /* elementwise */
  for (uint32_t r = 0; r < 300 * weight; r++) {
    static const char *const nm[] = { "normal", "normal_inv3", "shift", "red", "red_twice", "correct", "red_scale", "red_scale", "red_mul" };
    uint32_t op = r % 9, n = r % 10 == 4 ? 1 + rnd(500) : 1 + rnd(12), i;
    static interval_t x[512], y[512], *v[512], *q[512], *c[512]; interval_t z;
    int64_t sc = rnd_in(-6144, 6144);
    static int16_t pp[512];
    if (rnd(3) == 0) sc = rnd_in(-32768, 32767);
    for (i = 0; i < n; i++) {
      rrange(20, &x[i].min, &x[i].max);
      if (op == 2) { x[i].min = rnd(HQ); x[i].max = rnd_in(x[i].min, HQ - 1); }
      if (op == 5) { x[i].min = rnd_in(-HQ, 2 * HQ - 1); x[i].max = rnd(3) ? rnd_in(x[i].min, 2 * HQ - 1) : x[i].min + rnd((uint32_t) (2 * HQ - x[i].min)); }
      if (x[i].max - x[i].min > 15000 && op != 5 && op != 2) x[i].max = x[i].min + rnd(15000);
      y[i].min = rnd_in(-6144, 6144); y[i].max = y[i].min + rnd(5);
      pp[i] = (int16_t) (rnd(8) ? rnd_in(-6144, 6144) : rnd_in(-32768, 32767));
      v[i] = interval(x[i].min, x[i].max); q[i] = interval(y[i].min, y[i].max);
    }
    WHERE("abstract elementwise %s", nm[op]);
    alarm(60);
    hush(path);
    interval_t **out = v;
    switch (op) {
    case 0: abstract_normalize(v, n); break;
    case 1: abstract_normalize_inv3(v, n); break;
    case 2: abstract_shift_array(v, n); break;
    case 3: abstract_reduce_array(v, n); break;
    case 4: abstract_reduce_array_twice(v, n); break;
    case 5: abstract_correct(v, n); break;
    case 6: abstract_mul_reduce_array16(v, n, pp); break;
    case 7: abstract_scalar_mul_reduce_array(v, n, (int32_t) sc); break;
    default: abstract_mul_reduce_array(c, n, (const interval_t **) v, (const interval_t **) q); out = c;
    }
    unhush(); hx_calls++;
    i = rnd(n);
    z.min = op == 8 ? y[i].min : 0; z.max = op == 8 ? y[i].max : 0;
    for (uint32_t w = 0; w < n; w++) {
      out_t o = { 0, *out[w], true };
      int64_t k = op == 6 ? pp[w] : op == 7 ? sc : 0;
      z.min = op == 8 ? y[w].min : 0; z.max = op == 8 ? y[w].max : 0;
      bool ok = true;
      if (op == 6 || op == 7) ok = o.r.min == x_ext(x[w].min, x[w].max, k, false) && o.r.max == x_ext(x[w].min, x[w].max, k, true);
      if (op == 3) { ok = o.r.min == x_ext(x[w].min, x[w].max, 1, false) && o.r.max == x_ext(x[w].min, x[w].max, 1, true); }
      if (op == 8) ok = o.r.min == x_ext_iv(x[w].min, x[w].max, y[w].min, y[w].max, false) && o.r.max == x_ext_iv(x[w].min, x[w].max, y[w].min, y[w].max, true);
      if (w != i && ok && (op == 3 || (op >= 6 && op <= 8))) { hx_cases++; continue; }
      if (w != i && w + 1 != n && w % 128 != r % 128 && r > 40 && ok) continue;
      ev_open("iv"); ev_s("op", nm[op]); ev_w("al", x[w].min); ev_w("ah", x[w].max); ev_w("bl", z.min); ev_w("bh", z.max); ev_w("s", k);
      ev_i("status", 0); ev_w("l", o.r.min); ev_w("h", o.r.max); ev_end();
    }
  }
  /* abstract_correct stops on an interval outside of its domain */
  for (uint32_t r = 0; r < 100; r++) {
    interval_t x, *v[40];
    uint32_t n = r < 8 ? 1 : r < 40 ? 1 + rnd(6) : 1 + rnd(40), at = rnd(n), i;
    if (r % 2) { x.min = rnd_in(-HQ - 3, -HQ + 2); x.max = rnd_in(x.min, 0); } else { x.max = rnd_in(2 * HQ - 3, 2 * HQ + 2); x.min = rnd_in(0, x.max); }
    fflush(hx_out);
    pid_t pid = fork();
    if (pid == 0) {
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 2); dup2(nul, 1); hx_uncatch(); alarm(20);
      for (i = 0; i < n; i++) v[i] = i == at ? interval(x.min, x.max) : interval(-(int64_t) i, i);
      abstract_correct(v, n);
      _exit(0);
    }
    int st; waitpid(pid, &st, 0); hx_calls++;
    ev_open("absdom"); ev_i("lo", x.min); ev_i("hi", x.max); ev_i("stopped", WIFEXITED(st) ? WEXITSTATUS(st) != 0 : WTERMSIG(st) == SIGABRT ? 1 : 2); ev_end();
  }
  unlink(path);
}
int main(int argc, char **argv) {
  if (argc != 8) return 2;
  hx_init(argv[1]); hx_catch();
  weight = (uint32_t) atoi(argv[3]); part = (uint32_t) atoi(argv[4]); nparts = (uint32_t) atoi(argv[5]);
  scratch = argv[7];
  hx_seed(strtoull(argv[2], NULL, 10));
  switch (atoi(argv[6])) {
  case 0: bounds(); break;
  case 1: intervals(); break;
  default: abstracts();
  }
  hx_finish();
  return 0;
}
