/* Stand-in for Crab's interval domain: environments that map variables to intervals. */
#pragma once
#include "abstract_domain.hpp"
namespace ikos {
template <typename N, typename V> class interval_domain {
public:
  using interval_t = interval<N>;
  using bound_t = bound<N>;
  using variable_t = crab::variable<N, V>;
  using vars_t = std::vector<variable_t>;
  using lexp = crab::linear_expression<N, V>;
  using lcst = crab::linear_constraint<N, V>;
  using lsys = crab::linear_constraint_system<N, V>;
private:
  bool bot = false;
  std::map<V, interval_t> m;      /* no entry: any value */
  interval_t get(const V &v) const {
    if (bot) return interval_t::bottom();
    auto it = m.find(v);
    return it == m.end() ? interval_t::top() : it->second;
  }
  void put(const V &v, interval_t i) {
    if (bot) return;
    if (i.is_bottom()) { set_to_bottom(); return; }
    m.erase(v);
    if (!i.is_top()) m.insert({v, i});
  }
  interval_t eval(const lexp &e) const {
    interval_t r(e.cst);
    for (auto &p : e.coef) r = r + interval_t(p.second) * get(p.first);
    return bot ? interval_t::bottom() : r;
  }
  template <typename F> interval_domain zip(const interval_domain &o, F f) const {
    interval_domain r;
    std::set<V> ks;
    for (auto &p : m) ks.insert(p.first);
    for (auto &p : o.m) ks.insert(p.first);
    for (auto &k : ks) r.put(k, f(get(k), o.get(k)));
    return r;
  }
  /* x <= b or x >= b from c*x + rest <= 0 */
  void refine_leq(const lexp &e) {
    for (auto &p : e.coef) {
      if (bot || p.second == N(0)) continue;
      lexp rest = e;
      rest.coef.erase(p.first);
      bound_t lo = eval(rest).lb();            /* c*x <= -lo */
      if (!lo.is_finite()) continue;
      __int128 k = -lo.number()->raw(), c = p.second.raw(), q = k / c;
      if (c > 0) { if (q * c > k) q--; put(p.first, get(p.first) & interval_t(bound_t::minus_infinity(), bound_t(N(q)))); }
      else { if (q * c > k) q++; put(p.first, get(p.first) & interval_t(bound_t(N(q)), bound_t::plus_infinity())); }
    }
    if (!bot && e.coef.empty() && e.cst > N(0)) set_to_bottom();
    if (!bot && eval(e).lb() > bound_t(N(0))) set_to_bottom();
  }
  static lexp neg(lexp e) { for (auto &p : e.coef) p.second = -p.second; e.cst = -e.cst; return e; }
public:
  interval_domain make_top() const { return interval_domain(); }
  interval_domain make_bottom() const { interval_domain r; r.bot = true; return r; }
  static interval_domain top() { return interval_domain(); }
  static interval_domain bottom() { interval_domain r; r.bot = true; return r; }
  void set_to_top() { bot = false; m.clear(); }
  void set_to_bottom() { bot = true; m.clear(); }
  bool is_bottom() const { return bot; }
  bool is_top() const { return !bot && m.empty(); }
  bool operator<=(const interval_domain &o) const {
    if (bot) return true;
    if (o.bot) return false;
    for (auto &p : o.m) if (!(get(p.first) <= p.second)) return false;
    return true;
  }
  interval_domain operator|(const interval_domain &o) const { return bot ? o : o.bot ? *this : zip(o, [](interval_t a, interval_t b) { return a | b; }); }
  interval_domain operator&(const interval_domain &o) const { return bot || o.bot ? bottom() : zip(o, [](interval_t a, interval_t b) { return a & b; }); }
  interval_domain operator||(const interval_domain &o) const { return bot ? o : o.bot ? *this : zip(o, [](interval_t a, interval_t b) { return a || b; }); }
  interval_domain operator&&(const interval_domain &o) const { return bot || o.bot ? bottom() : zip(o, [](interval_t a, interval_t b) { return a && b; }); }
  void operator|=(const interval_domain &o) { *this = *this | o; }
  void operator&=(const interval_domain &o) { *this = *this & o; }
  interval_domain widening_thresholds(const interval_domain &o, const crab::thresholds<N> &ts) const {
    if (bot) return o;
    if (o.bot) return *this;
    return zip(o, [&ts](interval_t a, interval_t b) {
      bound_t l = a.lb(), u = a.ub();
      if (b.lb() < l) { l = bound_t::minus_infinity(); for (auto t : ts.t) if (bound_t(t) <= b.lb()) l = bound_t::max(l, bound_t(t)); }
      if (u < b.ub()) { u = bound_t::plus_infinity(); for (auto t : ts.t) if (b.ub() <= bound_t(t)) u = bound_t::min(u, bound_t(t)); }
      return interval_t(l, u);
    });
  }
  interval_t operator[](const variable_t &v) { return get(v.name()); }
  interval_t at(const variable_t &v) const { return get(v.name()); }
  void set(const variable_t &v, interval_t i) { put(v.name(), i); }
  void set(const variable_t &v, N n) { put(v.name(), interval_t(n)); }
  void operator-=(const variable_t &v) { if (!bot) m.erase(v.name()); }
  void operator+=(const lsys &s) {
    for (int r = 0; r < 3; r++) for (auto &c : s.c) {
      if (bot) return;
      lexp e = c.e;
      switch (c.k) {
      case crab::LT0: e.cst = e.cst + N(1); refine_leq(e); break;
      case crab::LEQ0: refine_leq(e); break;
      case crab::EQ0: refine_leq(e); if (!bot) refine_leq(neg(e)); break;
      case crab::NEQ0: { interval_t i = eval(e); if (i.singleton() && *i.singleton() == N(0)) set_to_bottom(); break; }
      }
    }
  }
  void assign(const variable_t &x, const lexp &e) { if (!bot) put(x.name(), eval(e)); }
  void weak_assign(const variable_t &x, const lexp &e) { if (!bot) put(x.name(), get(x.name()) | eval(e)); }
  interval_t binop(int op, interval_t a, interval_t b) const {
    using namespace crab::domains;
    switch (op) {
    case OP_ADDITION: return a + b;
    case OP_SUBTRACTION: return a - b;
    case OP_MULTIPLICATION: return a * b;
    default: return interval_t::top();
    }
  }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) { if (!bot) put(x.name(), binop(op, get(y.name()), get(z.name()))); }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, N k) { if (!bot) put(x.name(), binop(op, get(y.name()), interval_t(k))); }
  void apply(crab::domains::int_conv_operation_t, const variable_t &dst, const variable_t &src) { if (!bot) put(dst.name(), get(src.name())); }
  interval_t bitop(int op, interval_t a, interval_t b) const {
    using namespace crab::domains;
    auto x = a.singleton(), y = b.singleton();
    if (y && op == OP_SHL) return a * interval_t(N(1) << *y);
    if (y && op == OP_ASHR && a.lb().is_finite() && a.ub().is_finite()) return interval_t(*a.lb().number() >> *y, *a.ub().number() >> *y);
    if (x && y && op == OP_AND) return interval_t(*x & *y);
    if (x && y && op == OP_OR) return interval_t(*x | *y);
    if (x && y && op == OP_XOR) return interval_t(*x ^ *y);
    if (op == OP_AND && y && *y >= N(0)) return interval_t(N(0), *y);
    return interval_t::top();
  }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) { if (!bot) put(x.name(), bitop(op, get(y.name()), get(z.name()))); }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, N k) { if (!bot) put(x.name(), bitop(op, get(y.name()), interval_t(k))); }
  bool entails(const lcst &c) const {
    if (bot) return true;
    interval_t i = eval(c.e);
    switch (c.k) {
    case crab::LEQ0: return i.ub() <= bound_t(N(0));
    case crab::LT0: return i.ub() < bound_t(N(0));
    case crab::EQ0: return bool(i.singleton()) && *i.singleton() == N(0);
    default: return i.ub() < bound_t(N(0)) || i.lb() > bound_t(N(0));
    }
  }
  void select(const variable_t &lhs, const lcst &c, const lexp &e1, const lexp &e2) {
    if (bot) return;
    interval_domain yes(*this), no(*this);
    yes += lsys(c);
    lcst n = c;
    switch (c.k) {
    case crab::LEQ0: n.e = neg(c.e); n.k = crab::LT0; break;
    case crab::LT0: n.e = neg(c.e); n.k = crab::LEQ0; break;
    case crab::EQ0: n.k = crab::NEQ0; break;
    case crab::NEQ0: n.k = crab::EQ0; break;
    }
    no += lsys(n);
    if (yes.bot) assign(lhs, e2);
    else if (no.bot) assign(lhs, e1);
    else put(lhs.name(), eval(e1) | eval(e2));
  }
  void forget(const vars_t &vs) { for (auto &v : vs) *this -= v; }
  void project(const vars_t &vs) {
    if (bot) return;
    std::map<V, interval_t> k;
    for (auto &v : vs) { auto it = m.find(v.name()); if (it != m.end()) k.insert(*it); }
    m = k;
  }
  void rename(const vars_t &from, const vars_t &to) {
    if (bot) return;
    for (size_t i = 0; i < from.size(); i++) { interval_t x = get(from[i].name()); m.erase(from[i].name()); put(to[i].name(), x); }
  }
  void expand(const variable_t &x, const variable_t &y) { if (!bot) put(y.name(), get(x.name())); }
  void write(crab::crab_os &o) const { o << (bot ? "_|_" : "{...}"); }
  lsys to_linear_constraint_system() const {
    lsys r;
    if (bot) { r.c.push_back({lexp(N(1)), crab::LEQ0}); return r; }
    for (auto &p : m) {
      variable_t v(p.first);
      if (p.second.ub().is_finite()) { lexp e(v); e.cst = -*p.second.ub().number(); r.c.push_back({e, crab::LEQ0}); }
      if (p.second.lb().is_finite()) { lexp e; e.add(N(-1), p.first); e.cst = *p.second.lb().number(); r.c.push_back({e, crab::LEQ0}); }
    }
    return r;
  }
  crab::disjunctive_linear_constraint_system<N, V> to_disjunctive_linear_constraint_system() const {
    crab::disjunctive_linear_constraint_system<N, V> r;
    if (bot) r.is_false = true; else r.d.push_back(to_linear_constraint_system());
    return r;
  }
};
} // namespace ikos
