/*
 * The abstract domain of the verifier (verifier/src/ntt_intervals.*), compiled
 * against a stand-in for the Crab library (crabstub). Records of its operations
 * on environments of three variables, judged by Verifier.tla.
 * usage: d_verif OUT SEED WEIGHT PART NPARTS
 */
#include "ntt_intervals.cpp"
extern "C" {
#include "hx.h"
}
using dom = ntt_verifier::ntt_interval_domain<clam::number_t, clam::varname_t>;
using num = clam::number_t;
using var = dom::variable_t;
using itv = dom::interval_t;
using bnd = ikos::bound<num>;
using lexp = dom::linear_expression_t;
using lcst = dom::linear_constraint_t;
using lsys = dom::linear_constraint_system_t;
#define INF 100000
static const char *const VN[] = { "u", "v", "w" };
static var V(int i) { return var(VN[i]); }

/* Values of any magnitude: every operation used with scale > 1 commutes with
   multiplying all values by the scale. */
static num scale(1);
static void pick_scale(void) { static const long s[] = { 1, 1, 1, 4096, 2147483648L, 1L << 45, 1L << 61 }; scale = num(s[rnd(7)]); }
/* environments are built through the interface, by constraints */
static void bound_below(dom &d, int i, num k) { lexp e; e.add(num(-1), VN[i]); e.cst = k; d += lsys(lcst{e, crab::LEQ0}); }
static void bound_above(dom &d, int i, num k) { lexp e{V(i)}; e.cst = -k; d += lsys(lcst{e, crab::LEQ0}); }
static dom random_env(bool finite, bool bot_ok) {
  dom d;
  d.set_to_top();
  if (bot_ok && rnd(12) == 0) { d.set_to_bottom(); return d; }
  if (!finite && rnd(10) == 0) return d;
  uint32_t few = finite ? 0 : rnd(6) == 0;     /* hardly any bound */
  for (int i = 0; i < 3; i++) {
    int a = (int) rnd(9) - 4, b = (int) rnd(9) - 4;
    if (a > b) std::swap(a, b);
    if (rnd(5) == 0) b = a;
    if (few && rnd(3)) continue;
    if (finite || rnd(5)) bound_below(d, i, num(a) * scale);
    if (finite || rnd(5)) bound_above(d, i, num(b) * scale);
  }
  return d;
}
static int unscaled(num x) { return x % scale == num(0) && (x / scale).fits_sint() ? (int) (x / scale) : 77777; }
static int lo_of(const itv &i) { return i.lb().is_finite() ? unscaled(*i.lb().number()) : -INF; }
static int hi_of(const itv &i) { return i.ub().is_finite() ? unscaled(*i.ub().number()) : INF; }
static void ev_env(const char *f, const dom &d) {
  fprintf(hx_out, ",\"%s\":{\"bot\":%d,\"v\":[", f, d.is_bottom() ? 1 : 0);
  if (!d.is_bottom()) for (int i = 0; i < 3; i++) { itv x = d.at(V(i)); fprintf(hx_out, "%s[%d,%d]", i ? "," : "", lo_of(x), hi_of(x)); }
  fputs("]}", hx_out);
}
static void ev_exp(const char *f, const lexp &e) {
  int32_t c[4];
  for (int i = 0; i < 3; i++) { auto it = e.coef.find(VN[i]); c[i] = it == e.coef.end() ? 0 : (int32_t) (long) it->second; }
  c[3] = unscaled(e.cst);
  ev_v(f, c, 4);
}
static const char *const KN[] = { "le", "lt", "eq", "ne" };
static lexp random_exp(void) {
  lexp e(num((int) rnd(9) - 4) * scale);
  for (int i = 0; i < 3; i++) if (rnd(2)) e.add(num((int) rnd(5) - 2), VN[i]);
  return e;
}
static lcst random_cst(void) { return lcst{random_exp(), (crab::cst_kind) rnd(4)}; }
static void open(const char *op) { ev_open("dom"); ev_s("op", op); hx_calls++; }
static void ev_cst(const char *f, const lcst &c) {
  char b[16];
  ev_exp(f, c.e);
  snprintf(b, sizeof b, "%sk", f);
  ev_s(b, KN[c.k]);
}
static void binary(void) {
  pick_scale();
  dom a = random_env(false, true), b = random_env(false, true);
  crab::thresholds<num> ts;
  for (int t : { -7, -3, 0, 2, 9 }) ts.t.push_back(num(t) * scale);
  if (rnd(3) == 0) b = a | b;
  if (rnd(8) == 0) (rnd(2) ? a : b).set_to_top();
  if (rnd(8) == 0) (rnd(2) ? a : b).set_to_bottom();
  if (rnd(8) == 0) b = a;
  WHERE("lattice operation");
  uint32_t k = rnd(9);
  if (k == 0) { open("leq"); ev_env("a", a); ev_env("b", b); ev_i("res", a <= b); ev_end(); return; }
  static const char *const nm[] = { "", "join", "joineq", "meet", "meeteq", "widen", "widenth", "narrow", "narrow" };
  if (k >= 7) b = a & b;       /* narrowing from above */
  dom r(a);
  switch (k) {
  case 1: r = a | b; break;
  case 2: r |= b; break;
  case 3: r = a & b; break;
  case 4: r &= b; break;
  case 5: r = a || b; break;
  case 6: r = a.widening_thresholds(b, ts); break;
  default: r = a && b; break;
  }
  open(nm[k]); ev_env("a", a); ev_env("b", b); ev_env("r", r); ev_end();
}
static void chain(void) {
  scale = num(1);
  /* iteration with widening, then narrowing: x0, then x := x || (x | f) */
  dom x = random_env(true, false);
  int steps = 0;
  WHERE("widening chain");
  for (; steps < 40; steps++) {
    dom y(x);
    for (int i = 0; i < 3; i++) if (rnd(2)) { lexp e{V(i)}; e.cst = num((int) rnd(5) - 2); y.assign(V(i), e); }
    dom z = x || (x | y);
    if (z <= x && steps > 30) break;
    x = z;
  }
  open("chain"); ev_i("steps", steps); ev_env("a", x); ev_end();
}
static void unary(void) {
  uint32_t k = rnd(17), op7 = rnd(3), op8 = rnd(3), kk8 = rnd(7);
  if (k <= 6 || (k == 7 && op7 < 2) || (k == 8 && op8 == 2) || k == 9 || k == 16) pick_scale();
  else scale = num(1);
  dom a = random_env(false, true), r(a);
  int x = (int) rnd(3), y = (int) rnd(3), z = (int) rnd(3);
  int32_t args[3] = { x + 1, y + 1, z + 1 };
  lexp e = random_exp(), e2 = random_exp();
  lcst c = random_cst(), c2 = random_cst();
  WHERE("transfer function %u", k);
  switch (k) {
  case 0: r -= V(x); open("forget"); ev_v("args", args, 1); break;
  case 1: if (rnd(4) == 0) { r.forget({V(x), V(y), V(z)}); open("forget"); ev_v("args", args, 3); break; }
          r.forget({V(x), V(y)}); open("forget"); ev_v("args", args, 2); break;
  case 2: if (rnd(4) == 0) { r.project({V(x)}); open("project"); ev_v("args", args, 1); break; }
          r.project({V(x), V(y)}); open("project"); ev_v("args", args, 2); break;
  case 3: if (x == y) return; r -= V(y); r.rename({V(x)}, {V(y)}); open("rename"); ev_v("args", args, 2); break;
  case 4: if (x == y) return; if (rnd(2)) r -= V(y); r.expand(V(x), V(y)); open("expand"); ev_v("args", args, 2); break;
  case 5: r.assign(V(x), e); open("assign"); ev_v("args", args, 1); ev_exp("e", e); break;
  case 6: r.weak_assign(V(x), e); open("weak"); ev_v("args", args, 1); ev_exp("e", e); break;
  case 7: { uint32_t op = op7; static const char *const n[] = { "add", "sub", "mul" };
      r.apply((crab::domains::arith_operation_t) op, V(x), V(y), V(z)); open(n[op]); ev_v("args", args, 3); break; }
  case 8: { uint32_t op = op8; static const char *const n[] = { "addk", "subk", "mulk" }; int kk = (int) kk8 - 3;
      r.apply((crab::domains::arith_operation_t) op, V(x), V(y), num(kk)); args[2] = kk; open(n[op]); ev_v("args", args, 3); break; }
  case 9: r.apply((crab::domains::int_conv_operation_t) rnd(3), V(x), V(y)); open("conv"); ev_v("args", args, 2); break;
  case 10: { static const char *const n[] = { "shlk", "ashrk", "andk" }; uint32_t op = rnd(3); int kk = op == 2 ? (int) rnd(4) : (int) rnd(3);
      static const crab::domains::bitwise_operation_t o[] = { crab::domains::OP_SHL, crab::domains::OP_ASHR, crab::domains::OP_AND };
      r.apply(o[op], V(x), V(y), num(kk)); args[2] = kk; open(n[op]); ev_v("args", args, 3); break; }
  case 11: { static const crab::domains::bitwise_operation_t o[] = { crab::domains::OP_SHL, crab::domains::OP_ASHR, crab::domains::OP_AND };
      static const char *const n[] = { "shl", "ashr", "and" }; uint32_t op = rnd(3);
      dom b(a); lexp kx(num((int) rnd(3))); b.assign(V(z), kx); a = b; r = b;     /* a known, small shift */
      r.apply(o[op], V(x), V(y), V(z)); open(n[op]); ev_v("args", args, 3); break; }
  case 12: r.select(V(x), c, e, e2); open("select"); ev_v("args", args, 1); ev_cst("c", c); ev_exp("e", e); ev_exp("f", e2); break;
  case 13: { lsys s(c); s.c.push_back(c2); r += s; open("constrain"); ev_cst("c", c); ev_cst("d", c2); break; }
  case 16: {    /* two variables renamed at once */
      if (x == y || y == z || x == z) return;
      var t("t");
      r -= V(z); r -= t; r.rename({V(x), V(y)}, {V(z), t});
      itv left = r.at(V(x)), right = r.at(V(y));
      if (!r.is_bottom() && !(left.is_top() && right.is_top())) r.set_to_bottom();     /* refused by the specification */
      r.rename({t}, {V(x)}); open("rename2"); ev_v("args", args, 3); break; }
  case 14: { bool res = a.entails(c); open("entails"); ev_cst("c", c); ev_i("res", res); break; }
  default: {
      static const char *const n[] = { "top", "bottom", "same", "normalize", "minimize", "toset", "botset" };
      uint32_t q = rnd(7);
      switch (q) {
      case 0: r = a.make_top(); break;
      case 1: r = a.make_bottom(); break;
      case 2: r = dom(a); break;
      case 3: r.normalize(); break;
      case 4: r.minimize(); break;
      case 5: r.set_to_top(); break;
      default: r.set_to_bottom(); break;
      }
      open(q == 5 ? "top" : q == 6 ? "bottom" : q >= 2 ? "same" : n[q]); ev_i("istop", r.is_top());
    } }
  ev_env("a", a); ev_env("r", r); ev_end();
}
static void lin(void) {
  scale = num(1);
  dom a = random_env(false, true);
  lsys s = a.to_linear_constraint_system();
  auto d = a.to_disjunctive_linear_constraint_system();
  WHERE("constraints");
  for (int q = 0; q < 2; q++) {
    if (q) { s = lsys(); for (auto &t : d.d) for (auto &c : t.c) s.c.push_back(c); if (d.is_false) s.c.push_back(lcst{lexp(num(1)), crab::LEQ0}); if (d.d.size() > 1) continue; }
    open("lin"); ev_env("a", a);
    fputs(",\"cs\":[", hx_out);
    for (size_t i = 0; i < s.c.size(); i++) {
      fprintf(hx_out, "%s{\"k\":\"%s\"", i ? "," : "", KN[s.c[i].k]); ev_exp("c", s.c[i].e); fputc('}', hx_out);
    }
    fputc(']', hx_out); ev_end();
  }
}
/* the reduction */
static void ev_num(const char *f, num x) {
  __int128 v = x.raw();
  fprintf(hx_out, ",\"%s\":[%ld,%ld,%ld]", f, (long) (v >> 44), (long) ((v >> 22) & 0x3FFFFF), (long) (v & 0x3FFFFF));
}
static num wide(void) {
  switch (rnd(6)) {
  case 0: return num((int) rnd(20000) - 10000);
  case 1: return num((long) (rnd64() >> (rnd(62) + 2)) * (rnd(2) ? 1 : -1));
  case 2: return num((__int128) (int64_t) rnd64() * (rnd(2) ? 64 : 1));
  case 3: return num((long) ((int64_t) rnd(200) - 100) * 4096 + (long) rnd(5) - 2);
  case 4: return num((__int128) ((int64_t) rnd64() >> (12 + rnd(40))) * 4096 + (long) rnd(5) - 2);
  default: { static const int64_t s[] = { 0, -1, 4095, 4096, -4096, -4097, 21499, -21499, 2147483647, -2147483648LL, INT64_MAX, INT64_MIN, -8796042698752LL, 8796093026303LL };
      return num((long) s[rnd(14)]); }
  }
}
static void red(void) {
  scale = num(1);
  dom a = random_env(false, false);
  int x = (int) rnd(3), y = (int) rnd(3);
  uint32_t inf = rnd(6) == 0 ? 1 + rnd(3) : 0;
  num p = wide(), q = wide();
  if (rnd(4) == 0) q = p + num((int) rnd(9000));
  if (q < p) std::swap(p, q);
  if (rnd(8) == 0) q = p;
  a -= V(x);
  if (!(inf & 1)) bound_below(a, x, p);
  if (!(inf & 2)) bound_above(a, x, q);
  bool bot = rnd(15) == 0;
  if (bot) a.set_to_bottom();
  dom r(a);
  WHERE("red");
  std::vector<dom::variable_or_constant_t> in; in.push_back(V(x));
  r.intrinsic("red", in, {V(y)});
  open("red"); ev_i("x", x + 1); ev_i("y", y + 1); ev_i("inf", inf); ev_num("p", p); ev_num("q", q); ev_i("bot", bot); ev_i("rbot", r.is_bottom());
  itv o = r.at(V(y)), i = r.at(V(x));
  ev_i("oinf", (o.lb().is_finite() ? 0 : 1) + (o.ub().is_finite() ? 0 : 2));
  ev_num("l", o.lb().is_finite() ? *o.lb().number() : num(0)); ev_num("h", o.ub().is_finite() ? *o.ub().number() : num(0));
  /* the others */
  bool same = true;
  for (int k = 0; k < 3; k++) if (k != y && !bot && !r.is_bottom() && !(a.at(V(k)) == r.at(V(k)))) same = false;
  ev_i("same", same); (void) i; ev_end();
}
int main(int argc, char **argv) {
  if (argc != 6) return 2;
  hx_init(argv[1]); hx_catch();
  uint32_t weight = (uint32_t) atoi(argv[3]), part = (uint32_t) atoi(argv[4]);
  hx_seed(strtoull(argv[2], NULL, 10) * 1000 + part);
  alarm(hx_limit());
  for (uint32_t k = 0; k < 300 * weight; k++) {
    for (int q = 0; q < 3; q++) binary();
    for (int q = 0; q < 8; q++) unary();
    for (int q = 0; q < 8; q++) red();
    if (k % 4 == 0) { chain(); lin(); }
  }
  hx_finish();
  return 0;
}
