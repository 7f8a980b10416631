/*
 * Elementwise operations.
 * usage: d_elem OUT SEED WEIGHT PART NPARTS MODE
 * MODE 0: one-argument operations of the red families, on all 2^32 integers / their domain
 * MODE 1: products (two arguments)
 * MODE 2: shuffles (families 1 and 2)
 */
#include "fam.h"
#if FAM <= 2
#include "bitrev16_table.h"
#include "bitrev256_table.h"
#include "bitrev512_table.h"
#include "bitrev1024_table.h"
#endif

static uint64_t raw_budget = 60;
static uint32_t weight, part, nparts;
#define STEP (FAM == 4 ? 16 : 1)     /* n must be a multiple of STEP */
#define BIG 1048576
static int32_t *buf, *buf2, *buf3, *base;

/* operands of a product of two arrays: apart from the destination, or one of them in it */
static int32_t *src2, *src3;
static void operands(const int32_t *x, const int32_t *w, uint32_t n) {
  uint32_t m = rnd(5);
  src2 = m == 1 ? buf : buf2;
  src3 = m == 2 ? buf : buf3;
  for (uint32_t i = 0; i < n; i++) buf[i] = (int32_t) rnd64();
  memcpy(src2, x, n * 4);
  memcpy(src3, w, n * 4);
  if (m < 2 && n && !memcmp(x, w, n * 4)) src3 = src2; /* a square */
}
static void ev_op(const char *k, const char *op) { ev_open(k); ev_s("fam", FAMNAME); ev_s("op", op); }
static void ev_ew1(const char *op, const int32_t *x, const int32_t *y, uint32_t n) {
  ev_op("ew1", op); ev_v("x", x, n); ev_v("y", y, n); ev_end();
}
static void ev_ew2(const char *op, const int32_t *x, const int32_t *w, const int32_t *y, uint32_t n) {
  ev_op("ew2", op); ev_v("x", x, n); ev_v("w", w, n); ev_v("y", y, n); ev_end();
}

#if ISRED
typedef void (*un_t)(int32_t *, uint32_t);
#if FAM == 3
#define F(x) x
#else
#define F(x) x##_asm
extern void reduce_array_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void reduce_array_twice_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void mul_reduce_array16_asm2(int32_t *, uint32_t, const int16_t *) __attribute__((weak));
#endif
enum { K_RED, K_TWICE, K_NORM, K_INV3, K_SHIFT, K_CORRECT };
static const char *const kname[] = { "red", "red2", "norm", "norm_inv3", "shift", "correct" };
typedef struct { const char *name; int kind; un_t f; } un_op;
static const un_op un_ops[] = {
  { "reduce_array", K_RED, F(reduce_array) },
  { "reduce_array_twice", K_TWICE, F(reduce_array_twice) },
#if FAM == 3
  { "normalize", K_NORM, normalize },
  { "normalize_inv3", K_INV3, normalize_inv3 },
#else
  { "reduce_array_asm2", K_RED, reduce_array_asm2 },
  { "reduce_array_twice_asm2", K_TWICE, reduce_array_twice_asm2 },
#endif
  { "shift_array", K_SHIFT, F(shift_array) },
  { "correct", K_CORRECT, F(correct) },
};
static int32_t refred(int64_t x) { return (int32_t) (3 * (x & 4095) - (x >> 12)); }
/* explainer (see ref.h) */
static int32_t ref1(int kind, int32_t x) {
  switch (kind) {
  case K_RED: return refred(x);
  case K_TWICE: return refred(refred(x));
  case K_NORM: return res(x);
  case K_INV3: return res((int64_t) x * 8193);
  case K_SHIFT: return x > 6144 ? x - HQ : x;
  default: return x < 0 ? x + HQ : x >= HQ ? x - HQ : x;
  }
}
static void dom(int kind, int64_t *lo, int64_t *hi) {
  if (kind == K_SHIFT) { *lo = 0; *hi = HQ - 1; }
  else if (kind == K_CORRECT) { *lo = -HQ; *hi = 2 * HQ - 1; }
  else { *lo = INT32_MIN; *hi = INT32_MAX; }
}
/*
 * All 2^32 integers, by blocks of 4096 consecutive ones: the block b holds
 * x = 4096*b .. 4096*b + 4095. The values of the operation are recorded as
 *   aff:  y = y0 + db*(b - b0) + dj*j
 *   saw:  y = (y0 + dx*(x - 4096*b0)) modulo per, per and dx being measured
 *   comp: y = f(f(x)), f an operation of the same family
 */
static void sweep(const un_op *o) {
  static int32_t in[BIG], once[BIG];
  int64_t nb = 1048576 / nparts, b0 = -524288 + nb * part, b1 = part == nparts - 1 ? 524288 : b0 + nb, b;
  un_t once_f = F(reduce_array);
  int64_t y0 = 0, db = 0, dj = 0, dx = 0;
  const int64_t per = HQ;
  uint64_t bad = 0;
  WHERE("%s sweep", o->name);
  for (b = b0; b < b1; b += 16) {
    int64_t m = b1 - b < 16 ? b1 - b : 16;
    uint32_t n = (uint32_t) (m * 4096), i;
    for (i = 0; i < n; i++) in[i] = (int32_t) (b * 4096 + i);
    memcpy(buf, in, n * 4);
    o->f(buf, n); hx_calls++;
    if (b == b0) { y0 = buf[0]; dj = (int64_t) buf[1] - buf[0]; db = (int64_t) buf[4096] - buf[0]; dx = res(dj); }
    if (o->kind == K_TWICE) { memcpy(once, in, n * 4); once_f(once, n); once_f(once, n); }
    uint32_t first = n;
    for (i = 0; i < n; i++) {
      int64_t z;
      if (o->kind == K_RED) z = y0 + db * (b - b0 + (i >> 12)) + dj * (i & 4095);
      else if (o->kind == K_TWICE) z = once[i];
      else { z = (y0 + dx * (((b - b0) * 4096 + i) % per)) % per; }
      if (z != buf[i]) { first = i; break; }
    }
    if (first < n) { /* record the surroundings in full */
      uint32_t s = first > 20 ? first - 20 : 0, e = s + 64 < n ? s + 64 : n;
      if (bad++ < 4) ev_ew1(kname[o->kind], in + s, buf + s, e - s);
    } else hx_cases++;
  }
  ev_op(o->kind == K_RED ? "aff" : o->kind == K_TWICE ? "comp" : "saw", kname[o->kind]);
  ev_i("b0", b0); ev_i("b1", b1); ev_i("bad", (int64_t) (bad > 1000000 ? 1000000 : bad));
  ev_i("y0", y0); ev_i("db", db); ev_i("dj", dj); ev_i("dx", dx); ev_i("per", per); ev_end();
}
/* arrays without elements (the C families accept every length) */
static void empty1(const un_op *o) {
  if (STEP > 1) return;
  WHERE("%s empty array", o->name);
  int32_t v[33], x[33];
  for (int i = 0; i < 33; i++) v[i] = x[i] = 5000 + 700 * (i % 10);
  o->f(v + 16, 0); hx_calls++;
  ev_op("same", o->name); ev_v("x", x, 33); ev_v("y", v, 33); ev_end();
}
static int32_t pick(int kind) {
  int64_t lo, hi, v;
  dom(kind, &lo, &hi);
  switch (rnd(5)) {
  case 0: return (int32_t) rnd_in(lo, hi);
  case 1: v = (int64_t) (int32_t) rnd64() >> rnd(31); break;
  case 2: v = (rnd(2) ? 1ll : -1ll) * ((1ll << rnd(32)) + (int64_t) rnd(5) - 2); break;
  case 3: v = (int64_t) HQ * rnd_in(-3, 3) + rnd_in(-2, 2); break;
  default: v = rnd(2) ? lo + rnd(3) : hi - rnd(3);
  }
  return (int32_t) (v < lo ? lo : v > hi ? hi : v);
}
/* whole domain of a function with a small domain, shifted through all positions */
static void domain(const un_op *o) {
  int64_t lo, hi;
  static int32_t in[3 * HQ + 64];
  dom(o->kind, &lo, &hi);
  if (hi - lo > 100000) return;
  WHERE("%s domain", o->name);
  for (uint32_t r = 0; r < 17; r++) {
    uint32_t n = (uint32_t) (hi - lo + 1), i;
    if (n % STEP) n += STEP - n % STEP;
    for (i = 0; i < n; i++) in[i] = (int32_t) (lo + (i + r) % (hi - lo + 1));
    memcpy(buf, in, n * 4);
    o->f(buf, n); hx_calls++;
    if (r == 0) { for (uint32_t s = 0; s < n; s += 4096) ev_ew1(kname[o->kind], in + s, buf + s, n - s < 4096 ? n - s : 4096); continue; }
    for (i = 0; i < n; i++) if (buf[i] != ref1(o->kind, in[i])) break;
    if (i < n) { if (raw_budget) { raw_budget--; uint32_t s = i > 8 ? i - 8 : 0; ev_ew1(kname[o->kind], in + s, buf + s, n - s < 32 ? n - s : 32); } } else hx_cases++;
  }
}
/* array sizes, positions and alignments */
static void positions(const un_op *o) {
  static int32_t in[BIG + 64];
  WHERE("%s positions", o->name);
  if (part == 0) { /* more elements than 16 bits count */
    uint32_t n = BIG + 48, i;
    for (i = 0; i < n; i++) in[i] = pick(o->kind);
    memcpy(buf, in, n * 4);
    o->f(buf, n); hx_calls++;
    for (i = 0; i < n; i++) if (buf[i] != ref1(o->kind, in[i])) break;
    if (i < n) { uint32_t s = i > 8 ? i - 8 : 0; ev_ew1(kname[o->kind], in + s, buf + s, n - s < 32 ? n - s : 32); } else hx_cases++;
  }
  for (uint32_t r = 0; r < 6000 * weight; r++) {
    uint32_t n = r < 160 ? (r + 1) * STEP : r % 50 == 0 ? STEP * (1 + rnd(4096 / STEP)) : STEP * (1 + rnd(100)), i;
    if (n > 4096) n = 4096;
    for (i = 0; i < n; i++) in[i] = pick(o->kind);
    buf = base + rnd(16);
    memcpy(buf, in, n * 4);
    o->f(buf, n); hx_calls++;
    for (i = 0; i < n; i++) if (buf[i] != ref1(o->kind, in[i])) break;
    bool raw = r < 4 || (r >= 160 && r < 166);
    if (i < n || raw) { if (raw || raw_budget) { if (!raw) raw_budget--; ev_ew1(kname[o->kind], in, buf, n); } } else hx_cases++;
  }
  buf = base;
}

/* products followed by a reduction */
static bool safe(int64_t z) { return -8796042698752 <= z && z <= 8796093026303; }
static int64_t pick64(int bits) { /* integer of at most bits bits, all magnitudes */
  int64_t m = (1ll << (bits - 1)), v;
  switch (rnd(6)) {
  case 0: v = rnd_in(-m, m - 1); break;
  case 1: v = (int64_t) rnd64() >> (64 - bits + (int) rnd((uint32_t) bits)); break;
  case 2: v = rnd_in(-6144, 6144); break;
  case 3: v = (rnd(2) ? 1ll : -1ll) * ((1ll << rnd((uint32_t) bits)) + (int64_t) rnd(3) - 1); break;
  case 4: v = special(-21499, 21499); break;
  default: v = rnd(2) ? -m + rnd(2) : m - 1 - rnd(2);
  }
  return v < -m ? -m : v >= m ? m - 1 : v;
}
static void mulpairs(int32_t *x, int32_t *w, uint32_t n, int wbits) {
  for (uint32_t i = 0; i < n; i++) {
    do {
      int64_t u = pick64(wbits), v = pick64(32);
      if (rnd(6) == 0 && u != 0) { /* close to the ends of the safe range */
        int64_t t = rnd(2) ? 8796093026303 / u : -8796042698752 / u;
        t += (int64_t) rnd(3) - 1;
        if (t >= INT32_MIN && t <= INT32_MAX) v = t;
      }
      x[i] = (int32_t) v; w[i] = (int32_t) u;
    } while (!safe((int64_t) x[i] * w[i]));
  }
}
enum { M_16, M_2, M_SC, M_162 };
static const char *const mname[] = { "mul_reduce_array16", "mul_reduce_array", "scalar_mul_reduce_array", "mul_reduce_array16_asm2" };
static void mulcall(int kind, const int32_t *x, const int32_t *w, uint32_t n) {
  static int16_t p16[BIG + 128];
  uint32_t i, off = kind == M_2 ? 0 : rnd(16);
  hx_calls++;
  for (i = 0; i < n; i++) p16[off + i] = (int16_t) w[i];
  memcpy(buf, x, n * 4);
  switch (kind) {
  case M_16: F(mul_reduce_array16)(buf, n, p16 + off); break;
#if FAM == 4
  case M_162: mul_reduce_array16_asm2(buf, n, p16 + off); break;
#endif
  case M_2: operands(x, w, n); F(mul_reduce_array)(buf, n, src2, src3); break;
  case M_SC: F(scalar_mul_reduce_array)(buf, n, w[0]); break;
  }
}
static void emptym(int kind) {
  if (STEP > 1 || part) return;
  WHERE("%s empty array", mname[kind]);
  int32_t x[33], w[1] = { 5 };
  for (int i = 0; i < 33; i++) x[i] = 5000 + 700 * (i % 10);
  memcpy(base, x, sizeof x);
  buf = base + 16;
  mulcall(kind, x, w, 0);
  ev_op("same", mname[kind]); ev_v("x", x, 33); ev_v("y", base, 33); ev_end();
  buf = base;
}
static void mulcheck(int kind, const int32_t *x, const int32_t *w, uint32_t n, bool raw) {
  uint32_t i;
  mulcall(kind, x, w, n);
  for (i = 0; i < n; i++) if (buf[i] != refred((int64_t) x[i] * w[i])) break;
  if (i < n || raw) {
    if (raw || raw_budget) { if (!raw) raw_budget--; uint32_t s = n > 512 ? (i < n ? (i > 8 ? i - 8 : 0) : 0) : 0; ev_ew2("mulred", x + s, w + s, buf + s, n - s > 512 ? 512 : n - s); }
  } else hx_cases++;
}
static void mul(int kind) {
  static int32_t x[BIG + 64], w[BIG + 64];
  uint32_t r, i, n;
  WHERE("%s", mname[kind]);
  for (r = 0; r < 6000 * weight; r++) {
    n = r < 160 ? (r + 1) * STEP : r % 50 == 0 ? STEP * (1 + rnd(4096 / STEP)) : STEP * (1 + rnd(60));
    if (n > 4096) n = 4096;
    mulpairs(x, w, n, kind == M_16 || kind == M_162 ? 16 : 32);
    if (kind == M_SC) {
      int64_t c = r % 3 ? pick64(32) : rnd_in(-6144, 6144);
      for (i = 0; i < n; i++) { w[i] = (int32_t) c; while (!safe((int64_t) x[i] * c)) x[i] /= 2; }
    }
    if (kind == M_2 && r % 7 == 3) for (i = 0; i < n; i++) { x[i] = (int32_t) ((x[i] ^ w[i]) % 2965821); w[i] = x[i]; }
    buf = base + rnd(16); buf2 = base + BIG + 64 + rnd(16); buf3 = base + 2 * (BIG + 64) + rnd(16);
    mulcheck(kind, x, w, n, r < 4 || (r >= 160 && r < 166));
  }
  buf = base; buf2 = base + BIG + 64; buf3 = base + 2 * (BIG + 64);
  if (part == 0) { /* more elements than 16 bits count */
    n = BIG + 48;
    mulpairs(x, w, n, kind == M_16 || kind == M_162 ? 16 : 32);
    if (kind == M_SC) for (i = 0; i < n; i++) { w[i] = 4097; while (!safe((int64_t) x[i] * 4097)) x[i] /= 2; }
    mulcheck(kind, x, w, n, false);
  }
  /* all pairs used by the products: |x| <= 21499, |w| <= 6144 */
  int32_t step = kind == M_162 ? 7 : 1;
  for (int32_t c = -6144 + (int32_t) part; c <= 6144; c += (int32_t) nparts * step) {
    n = 43008; /* covers -21504 .. 21503 */
    for (i = 0; i < n; i++) { x[i] = (int32_t) i - 21504; w[i] = c; }
    mulcheck(kind, x, w, n, false);
  }
  emptym(kind);
}
#else
/* FAM 1, 2: modular products */
#if FAM == 1
#define MUL16(a, n, p) mul_array16(a, n, p)
#define MUL2(c, n, a, b) mul_array(c, n, a, b)
#define MULS(a, n, c) scalar_mul_array(a, n, c)
#else
#define MUL16(a, n, p) mul_array16_naive(a, n, p, HQ)
#define MUL2(c, n, a, b) mul_array_naive(c, n, a, b, HQ)
#define MULS(a, n, c) scalar_mul_array_naive(a, n, c, HQ)
#endif
static const char *const mname[] = { "mul_array16", "mul_array", "scalar_mul_array" };
static void mulcall(int kind, const int32_t *x, const int32_t *w, uint32_t n) {
  static uint16_t p16[BIG + 128];
  uint32_t i, off = kind == 0 ? rnd(16) : 0;
  hx_calls++;
  for (i = 0; i < n; i++) p16[off + i] = (uint16_t) w[i];
  memcpy(buf, x, n * 4);
  if (kind == 0) MUL16(buf, n, p16 + off);
  else if (kind == 1) { operands(x, w, n); MUL2(buf, n, src2, src3); }
  else MULS(buf, n, w[0]);
}
static void emptym(int kind) {
  if (STEP > 1 || part) return;
  WHERE("%s empty array", mname[kind]);
  int32_t x[33], w[1] = { 5 };
  for (int i = 0; i < 33; i++) x[i] = 5000 + 700 * (i % 10);
  memcpy(base, x, sizeof x);
  buf = base + 16;
  mulcall(kind, x, w, 0);
  ev_op("same", mname[kind]); ev_v("x", x, 33); ev_v("y", base, 33); ev_end();
  buf = base;
}
/* all pairs: for every w, y(x) = (s * x) modulo Q for x = 0 .. Q-1, s measured */
static void mul(int kind) {
  static int32_t x[BIG + 64], w[BIG + 64], ws[HQ], ss[HQ];
  uint32_t i, m = 0, n = HQ, r;
  WHERE("%s", mname[kind]);
  for (int32_t c = (int32_t) part; c < HQ; c += (int32_t) nparts) {
    uint32_t rot = rnd(n);
    for (i = 0; i < n; i++) { x[i] = (int32_t) ((i + rot) % n); w[i] = c; }
    mulcall(kind, x, w, n);
    int32_t s = buf[(n - rot + 1) % n];
    for (i = 0; i < n; i++) if (buf[i] != res((int64_t) s * x[i])) break;
    if (i < n) { if (raw_budget) { raw_budget--; uint32_t b = i > 8 ? i - 8 : 0; ev_ew2("mulmod", x + b, w + b, buf + b, n - b < 32 ? n - b : 32); } }
    else { ws[m] = c; ss[m] = s; m++; hx_cases++; }
  }
  ev_op("lin", mname[kind]); ev_v("w", ws, m); ev_v("s", ss, m); ev_end();
  for (r = 0; r < 6000 * weight; r++) {
    n = r < 160 ? r + 1 : 1 + rnd(r % 50 == 0 ? 4096 : 100);
    if (r == 200 && part == 0) n = BIG + 45; /* more elements than 16 bits count */
    for (i = 0; i < n; i++) { x[i] = rnd(3) ? (int32_t) rnd(HQ) : special(0, HQ - 1); w[i] = rnd(3) ? (int32_t) rnd(HQ) : special(0, HQ - 1); }
    if (kind == 2) for (i = 1; i < n; i++) w[i] = w[0];
    if (kind == 1 && r % 7 == 3) memcpy(w, x, n * 4);
    buf = base + rnd(16); buf2 = base + BIG + 64 + rnd(16); buf3 = base + 2 * (BIG + 64) + rnd(16);
    if (r == 200) { buf = base; buf2 = base + BIG + 64; buf3 = base + 2 * (BIG + 64); }
    mulcall(kind, x, w, n);
    for (i = 0; i < n; i++) if (buf[i] != res((int64_t) x[i] * w[i])) break;
    bool raw = r < 4 || (r >= 160 && r < 166);
    if (r == 200 && i < n) { uint32_t b = i > 8 ? i - 8 : 0; ev_ew2("mulmod", x + b, w + b, buf + b, n - b < 32 ? n - b : 32); continue; }
    if (i < n || raw) { if (raw || raw_budget) { if (!raw) raw_budget--; ev_ew2("mulmod", x, w, buf, n); } } else hx_cases++;
  }
  buf = base; buf2 = base + BIG + 64; buf3 = base + 2 * (BIG + 64);
  emptym(kind);
}
static void shuffles(void) {
  static int32_t v[65536];
  static const struct { uint32_t n; const uint16_t (*p)[2]; uint32_t np; } T[] = {
    { 16, bitrev16, BITREV16_NPAIRS }, { 256, bitrev256, BITREV256_NPAIRS }, { 512, bitrev512, BITREV512_NPAIRS }, { 1024, bitrev1024, BITREV1024_NPAIRS } };
  uint32_t i, n, r;
  for (n = 1; n <= 65536; n <<= 1) {
    WHERE("bitrev_shuffle n=%u", n);
    for (r = 0; r < 40; r++) {
      buf = base + rnd(16);
      for (i = 0; i < n; i++) v[i] = r == 0 ? (int32_t) i : (int32_t) rnd64();
      memcpy(buf, v, n * 4);
      bitrev_shuffle(buf, n); hx_calls++;
      bool ok = true;
      for (i = 0; i < n && ok; i++) ok = buf[i] == v[hrev(i, n)];
      if ((r == 0 && n <= 4096) || (!ok && raw_budget)) {
        if (r) raw_budget--;
        /* tags: position each value came from */
        if (r == 0) { ev_op("shuf", "bitrev_shuffle"); ev_i("n", n); ev_v("out", buf, n < 4096 ? n : 4096); ev_end(); }
        else { ev_op("shufv", "bitrev_shuffle"); ev_i("n", n); ev_v("in", v, n); ev_v("out", buf, n); ev_end(); }
      } else if (ok) hx_cases++;
    }
  }
  /* more elements than 16 bits count: tagged values, the tags found at some positions */
  for (n = 1u << 16; n <= 1u << 20; n <<= 1) {
    int32_t *big = malloc((n + 32) * 4), *z = big + 16;
    static int32_t at[512], src[512];
    uint32_t m = 0;
    WHERE("bitrev_shuffle n=%u", n);
    for (i = 0; i < n; i++) z[i] = (int32_t) i;
    for (i = 1; i <= 16; i++) z[-(int) i] = z[n + i - 1] = -7;
    bitrev_shuffle(z, n); hx_calls++;
    for (i = 1; i <= 16; i++) if (z[-(int) i] != -7 || z[n + i - 1] != -7) { at[0] = 0; src[0] = -1; m = 1; }
    for (i = 0; i < n && m < 256; i++) if ((uint32_t) z[i] != hrev(i, n)) { at[m] = (int32_t) i; src[m++] = z[i]; }
    while (m < 512) { i = rnd(n); at[m] = (int32_t) i; src[m++] = z[i]; }
    ev_op("shufp", "bitrev_shuffle"); ev_i("n", n); ev_v("at", at, m); ev_v("src", src, m); ev_end();
    free(big);
  }
  for (uint32_t t = 0; t < 4; t++) {
    n = T[t].n;
    WHERE("shuffle_with_table n=%u", n);
    ev_op("pairs", "bitrev_table"); ev_i("n", n); ev_i("np", T[t].np);
    fputs(",\"p\":[", hx_out);
    for (i = 0; i < T[t].np; i++) fprintf(hx_out, "%s[%d,%d]", i ? "," : "", T[t].p[i][0], T[t].p[i][1]);
    fputs("]", hx_out); ev_end();
    for (r = 0; r < 40; r++) {
      buf = base + rnd(16);
      for (i = 0; i < n; i++) v[i] = r == 0 ? (int32_t) i : (int32_t) rnd64();
      memcpy(buf, v, n * 4);
      shuffle_with_table(buf, T[t].p, T[t].np); hx_calls++;
      bool ok = true;
      for (i = 0; i < n && ok; i++) ok = buf[i] == v[hrev(i, n)];
      if (r == 0) { ev_op("shuf", "shuffle_with_table"); ev_i("n", n); ev_v("out", buf, n); ev_end(); }
      else if (!ok && raw_budget) { raw_budget--; ev_op("shufv", "shuffle_with_table"); ev_i("n", n); ev_v("in", v, n); ev_v("out", buf, n); ev_end(); }
      else if (ok) hx_cases++;
    }
  }
  /* any table of pairs: the pairs are swapped in order */
  for (r = 0; r < 400; r++) {
    static uint16_t pr[200][2];
    static int32_t flat[400];
    uint32_t np = r < 5 ? r : rnd(200);
    n = 2 + rnd(300);
    WHERE("shuffle_with_table n=%u, %u pairs", n, np);
    for (i = 0; i < np; i++) { flat[2 * i] = pr[i][0] = (uint16_t) rnd(n); flat[2 * i + 1] = pr[i][1] = (uint16_t) rnd(n); }
    for (i = 0; i < n; i++) v[i] = (int32_t) i;
    memcpy(buf, v, n * 4);
    shuffle_with_table(buf, (const uint16_t (*)[2]) pr, np); hx_calls++;
    ev_op("swaps", "shuffle_with_table"); ev_i("n", n); ev_v("p", flat, 2 * np); ev_v("out", buf, n); ev_end();
  }
}
#endif

int main(int argc, char **argv) {
  if (argc != 7) return 2;
  hx_init(argv[1]); hx_catch();
  weight = (uint32_t) atoi(argv[3]); part = (uint32_t) atoi(argv[4]); nparts = (uint32_t) atoi(argv[5]);
  int mode = atoi(argv[6]);
  hx_seed(strtoull(argv[2], NULL, 10) * 1000 + part);
  base = aligned_alloc(64, 4 * (3 * (BIG + 64) + 64));
  buf = base; buf2 = base + BIG + 64; buf3 = base + 2 * (BIG + 64);
  alarm(hx_limit());
#if ISRED
  if (mode == 0) {
    for (uint32_t k = 0; k < sizeof un_ops / sizeof un_ops[0]; k++) {
      const un_op *o = &un_ops[k];
      if (!o->f) continue;
      if (o->kind <= K_INV3) sweep(o);
      if (k % nparts == part) domain(o);
      positions(o);
      if (part == 0) empty1(o);
    }
#if FAM == 4
    if (part == 0) { ev_op("flag", "avx2_supported"); ev_i("got", avx2_supported() ? 1 : 0); ev_i("cpu", __builtin_cpu_supports("avx2") ? 1 : 0); ev_end(); }
#endif
  } else if (mode == 1) {
    mul(M_16); mul(M_2); mul(M_SC);
#if FAM == 4
    if (mul_reduce_array16_asm2) mul(M_162);
#endif
  }
#else
  if (mode == 1) { mul(0); mul(1); mul(2); }
  if (mode == 2) shuffles();
#endif
  hx_finish();
  return 0;
}
