/*
 * Stand-in for the parts of the Crab library that /repo/verifier uses: enough
 * of the interface of abstract domains to compile ntt_intervals.cpp.
 */
#pragma once
#include <boost/optional.hpp>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace ikos {
/* integers: Crab has arbitrary precision, here 128 bits */
class z_number {
  __int128 v;
public:
  z_number() : v(0) {}
  z_number(int x) : v(x) {}
  z_number(long x) : v(x) {}
  z_number(long long x) : v(x) {}
  z_number(unsigned x) : v(x) {}
  z_number(unsigned long x) : v((__int128) x) {}
  z_number(__int128 x) : v(x) {}
  __int128 raw() const { return v; }
  explicit operator long() const { return (long) v; }
  explicit operator int64_t*() const = delete;
  explicit operator int() const { return (int) v; }
  bool fits_slong() const { return fits_int64(); }
  bool fits_sint() const { return v == (__int128) (int) v; }
  std::string get_str(unsigned = 10) const { std::string r; __int128 x = v < 0 ? -v : v; do r.insert(r.begin(), char('0' + (int) (x % 10))); while (x /= 10); return v < 0 ? "-" + r : r; }
  friend std::ostream &operator<<(std::ostream &o, const z_number &z) { return o << z.get_str(); }
  bool fits_int64() const { return v == (__int128) (int64_t) v; }
  z_number operator-() const { return z_number(-v); }
  z_number operator~() const { return z_number(~v); }
  z_number &operator++() { ++v; return *this; }
  z_number &operator--() { --v; return *this; }
  z_number operator++(int) { z_number r(*this); ++v; return r; }
  z_number operator--(int) { z_number r(*this); --v; return r; }
#define ZOP(op) z_number operator op(z_number y) const { return z_number(v op y.v); } \
                z_number &operator op##=(z_number y) { v = v op y.v; return *this; }
  ZOP(+) ZOP(-) ZOP(*) ZOP(/) ZOP(%) ZOP(&) ZOP(|) ZOP(^)
#undef ZOP
  z_number operator<<(z_number y) const { return z_number(v * ((__int128) 1 << (int) y.v)); }
  z_number &operator<<=(z_number y) { return *this = *this << y; }
  z_number &operator>>=(z_number y) { return *this = *this >> y; }
  z_number operator>>(z_number y) const { return z_number(v >> (int) y.v); }   /* rounds down */
#define ZCMP(op) bool operator op(z_number y) const { return v op y.v; }
  ZCMP(==) ZCMP(!=) ZCMP(<) ZCMP(<=) ZCMP(>) ZCMP(>=)
#undef ZCMP
};
#define ZL(T) \
  inline z_number operator+(T a, z_number b) { return z_number(a) + b; } \
  inline z_number operator-(T a, z_number b) { return z_number(a) - b; } \
  inline z_number operator*(T a, z_number b) { return z_number(a) * b; } \
  inline z_number operator&(T a, z_number b) { return z_number(a) & b; } \
  inline z_number operator|(T a, z_number b) { return z_number(a) | b; } \
  inline bool operator<(T a, z_number b) { return z_number(a) < b; } \
  inline bool operator<=(T a, z_number b) { return z_number(a) <= b; } \
  inline bool operator>(T a, z_number b) { return z_number(a) > b; } \
  inline bool operator>=(T a, z_number b) { return z_number(a) >= b; } \
  inline z_number operator/(T a, z_number b) { return z_number(a) / b; } \
  inline z_number operator%(T a, z_number b) { return z_number(a) % b; } \
  inline z_number operator^(T a, z_number b) { return z_number(a) ^ b; } \
  inline bool operator!=(T a, z_number b) { return z_number(a) != b; } \
  inline bool operator==(T a, z_number b) { return z_number(a) == b; }
ZL(int) ZL(long)
#undef ZL

template <typename N> class bound {
  int inf;     /* -1, 0, 1 */
  N n;
  bound(int i, N x) : inf(i), n(x) {}
public:
  bound(N x) : inf(0), n(x) {}
  bound(int x) : inf(0), n(x) {}
  static bound plus_infinity() { return bound(1, N(0)); }
  static bound minus_infinity() { return bound(-1, N(0)); }
  bool is_finite() const { return inf == 0; }
  bool is_infinite() const { return inf != 0; }
  bool is_plus_infinity() const { return inf > 0; }
  bool is_minus_infinity() const { return inf < 0; }
  boost::optional<N> number() const { return inf ? boost::optional<N>() : boost::optional<N>(n); }
  bool operator<=(const bound &o) const { return inf != o.inf ? inf < o.inf : inf != 0 || n <= o.n; }
  bool operator<(const bound &o) const { return !(o <= *this); }
  bool operator>=(const bound &o) const { return o <= *this; }
  bool operator>(const bound &o) const { return o < *this; }
  bool operator==(const bound &o) const { return *this <= o && o <= *this; }
  bool operator!=(const bound &o) const { return !(*this == o); }
  bound operator+(const bound &o) const { return inf ? *this : o.inf ? o : bound(n + o.n); }
  bound operator-() const { return bound(-inf, -n); }
  bound operator-(const bound &o) const { return *this + (-o); }
  bound operator*(const bound &o) const {
    int s = sign(), t = o.sign();
    if (s == 0 || t == 0) return bound(N(0));
    if (inf || o.inf) return bound(s * t, N(0));
    return bound(n * o.n);
  }
  int sign() const { return inf ? inf : n > N(0) ? 1 : n < N(0) ? -1 : 0; }
  static bound min(bound a, bound b) { return a <= b ? a : b; }
  static bound max(bound a, bound b) { return a <= b ? b : a; }
  static bound min(bound a, bound b, bound c) { return min(min(a, b), c); }
  static bound max(bound a, bound b, bound c) { return max(max(a, b), c); }
  static bound min(bound a, bound b, bound c, bound d) { return min(min(a, b), min(c, d)); }
  static bound max(bound a, bound b, bound c, bound d) { return max(max(a, b), max(c, d)); }
  bound &operator+=(const bound &o) { return *this = *this + o; }
  bound &operator-=(const bound &o) { return *this = *this - o; }
  bound &operator*=(const bound &o) { return *this = *this * o; }
  bound abs() const { return sign() < 0 ? -*this : *this; }
  friend std::ostream &operator<<(std::ostream &o, const bound &b) { return b.inf ? o << (b.inf < 0 ? "-oo" : "+oo") : o << b.n; }
};
template <typename N> class interval {
  bound<N> l, u;
public:
  using bound_t = bound<N>;
  interval(bound<N> a, bound<N> b) : l(a), u(b) { if (a > b) { l = bound<N>(N(0)); u = bound<N>(N(-1)); } }
  interval(N a, N b) : interval(bound<N>(a), bound<N>(b)) {}
  interval(bound<N> a) : l(a), u(a) {}
  interval(N a) : l(a), u(a) {}
  static interval top() { return interval(bound<N>::minus_infinity(), bound<N>::plus_infinity()); }
  static interval bottom() { return interval(bound<N>(N(0)), bound<N>(N(-1))); }
  bound<N> lb() const { return l; }
  bound<N> ub() const { return u; }
  interval lower_half_line() const { return is_bottom() ? *this : interval(bound<N>::minus_infinity(), u); }
  interval upper_half_line() const { return is_bottom() ? *this : interval(l, bound<N>::plus_infinity()); }
  bool operator[](N x) const { return l <= bound<N>(x) && bound<N>(x) <= u; }
  friend std::ostream &operator<<(std::ostream &o, const interval &i) { return i.is_bottom() ? o << "_|_" : o << "[" << i.l << "," << i.u << "]"; }
  interval &operator|=(const interval &o) { return *this = *this | o; }
  interval &operator&=(const interval &o) { return *this = *this & o; }
  interval &operator+=(const interval &o) { return *this = *this + o; }
  interval &operator-=(const interval &o) { return *this = *this - o; }
  interval &operator*=(const interval &o) { return *this = *this * o; }
  bool is_bottom() const { return l > u; }
  bool is_top() const { return l.is_infinite() && u.is_infinite(); }
  boost::optional<N> singleton() const { return !is_bottom() && l == u ? l.number() : boost::optional<N>(); }
  bool operator<=(const interval &o) const { return is_bottom() || (!o.is_bottom() && o.l <= l && u <= o.u); }
  bool operator==(const interval &o) const { return *this <= o && o <= *this; }
  bool operator!=(const interval &o) const { return !(*this == o); }
  interval operator|(const interval &o) const { return is_bottom() ? o : o.is_bottom() ? *this : interval(bound<N>::min(l, o.l), bound<N>::max(u, o.u)); }
  interval operator&(const interval &o) const { return is_bottom() || o.is_bottom() ? bottom() : interval(bound<N>::max(l, o.l), bound<N>::min(u, o.u)); }
  interval operator||(const interval &o) const {
    if (is_bottom()) return o;
    if (o.is_bottom()) return *this;
    return interval(o.l < l ? bound<N>::minus_infinity() : l, u < o.u ? bound<N>::plus_infinity() : u);
  }
  interval operator&&(const interval &o) const {
    if (is_bottom() || o.is_bottom()) return bottom();
    return interval(l.is_infinite() && o.l.is_finite() ? o.l : l, u.is_infinite() && o.u.is_finite() ? o.u : u);
  }
  interval operator+(const interval &o) const { return is_bottom() || o.is_bottom() ? bottom() : interval(l + o.l, u + o.u); }
  interval operator-() const { return is_bottom() ? bottom() : interval(-u, -l); }
  interval operator-(const interval &o) const { return *this + (-o); }
  interval operator*(const interval &o) const {
    if (is_bottom() || o.is_bottom()) return bottom();
    bound<N> a = l * o.l, b = l * o.u, c = u * o.l, d = u * o.u;
    using B = bound<N>;
    return interval(B::min(B::min(a, b), B::min(c, d)), B::max(B::max(a, b), B::max(c, d)));
  }
};
} // namespace ikos

namespace crab {
class crab_os {
public:
  std::ostringstream s;
  template <typename T> crab_os &operator<<(const T &t) { s << t; return *this; }
};
inline crab_os &outs() { static crab_os o; return o; }
inline crab_os &errs() { static crab_os o; return o; }
struct crab_error : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename N> struct thresholds { std::vector<N> t; };

template <typename N, typename V> class variable {
  V n;
public:
  variable(V name) : n(name) {}
  const V &name() const { return n; }
  bool operator<(const variable &o) const { return n < o.n; }
  bool operator==(const variable &o) const { return n == o.n; }
  bool operator!=(const variable &o) const { return !(n == o.n); }
  friend std::ostream &operator<<(std::ostream &o, const variable &v) { return o << v.n; }
};
template <typename N, typename V> class variable_or_constant {
  boost::optional<variable<N, V>> v;
  N k;
public:
  variable_or_constant(variable<N, V> x) : v(x), k(0) {}
  variable_or_constant(N x) : k(x) {}
  bool is_variable() const { return bool(v); }
  bool is_constant() const { return !v; }
  variable<N, V> get_variable() const { if (!v) throw crab_error("not a variable"); return *v; }
  N get_constant() const { return k; }
};
template <typename N, typename V> struct linear_expression {
  std::map<V, N> coef;
  N cst;
  linear_expression(N k = N(0)) : cst(k) {}
  linear_expression(variable<N, V> x) : cst(0) { coef[x.name()] = N(1); }
  bool is_constant() const { return coef.empty(); }
  N constant() const { return cst; }
  size_t size() const { return coef.size(); }
  boost::optional<variable<N, V>> get_variable() const {
    if (coef.size() == 1 && cst == N(0) && coef.begin()->second == N(1)) return variable<N, V>(coef.begin()->first);
    return boost::optional<variable<N, V>>();
  }
  std::vector<variable<N, V>> variables() const { std::vector<variable<N, V>> r; for (auto &p : coef) r.push_back(variable<N, V>(p.first)); return r; }
  linear_expression operator+(const linear_expression &o) const { linear_expression r(*this); for (auto &p : o.coef) r.add(p.second, p.first); r.cst = r.cst + o.cst; return r; }
  linear_expression operator-() const { linear_expression r(*this); for (auto &p : r.coef) p.second = -p.second; r.cst = -r.cst; return r; }
  linear_expression operator-(const linear_expression &o) const { return *this + (-o); }
  linear_expression &add(N c, V x) { coef[x] = (coef.count(x) ? coef[x] : N(0)) + c; return *this; }
};
enum cst_kind { LEQ0, LT0, EQ0, NEQ0 };
template <typename N, typename V> struct linear_constraint {   /* e kind 0 */
  linear_expression<N, V> e; cst_kind k;
  const linear_expression<N, V> &expression() const { return e; }
  N constant() const { return -e.cst; }
  std::vector<variable<N, V>> variables() const { return e.variables(); }
  bool is_equality() const { return k == EQ0; }
  bool is_disequation() const { return k == NEQ0; }
  bool is_inequality() const { return k == LEQ0; }
  bool is_strict_inequality() const { return k == LT0; }
  bool is_tautology() const { return e.is_constant() && holds(); }
  bool is_contradiction() const { return e.is_constant() && !holds(); }
  linear_constraint negate() const { return k == LEQ0 ? linear_constraint{-e, LT0} : k == LT0 ? linear_constraint{-e, LEQ0} : k == EQ0 ? linear_constraint{e, NEQ0} : linear_constraint{e, EQ0}; }
  static linear_constraint get_true() { return {linear_expression<N, V>(N(0)), EQ0}; }
  static linear_constraint get_false() { return {linear_expression<N, V>(N(0)), NEQ0}; }
private:
  bool holds() const { return k == LEQ0 ? e.cst <= N(0) : k == LT0 ? e.cst < N(0) : k == EQ0 ? e.cst == N(0) : e.cst != N(0); }
};
template <typename N, typename V> struct linear_constraint_system {
  std::vector<linear_constraint<N, V>> c;
  linear_constraint_system() {}
  linear_constraint_system(const linear_constraint<N, V> &x) { c.push_back(x); }
  void operator+=(const linear_constraint<N, V> &x) { c.push_back(x); }
  void operator+=(const linear_constraint_system &o) { for (auto &x : o.c) c.push_back(x); }
  typename std::vector<linear_constraint<N, V>>::const_iterator begin() const { return c.begin(); }
  typename std::vector<linear_constraint<N, V>>::const_iterator end() const { return c.end(); }
  size_t size() const { return c.size(); }
  bool is_true() const { return c.empty(); }
  bool is_false() const { for (auto &x : c) if (x.is_contradiction()) return true; return false; }
};
template <typename N, typename V> struct disjunctive_linear_constraint_system { std::vector<linear_constraint_system<N, V>> d; bool is_false = false; };
template <typename N, typename V> struct reference_constraint {};
} // namespace crab

#define CRAB_ERROR(...) throw crab::crab_error("CRAB_ERROR")
#define CRAB_WARN(...) ((void) 0)
#define BOOL_OPERATIONS_NOT_IMPLEMENTED(D)
#define ARRAY_OPERATIONS_NOT_IMPLEMENTED(D)
#define REGION_AND_REFERENCE_OPERATIONS_NOT_IMPLEMENTED(D)

namespace crab { namespace domains {
enum arith_operation_t { OP_ADDITION, OP_SUBTRACTION, OP_MULTIPLICATION, OP_SDIV, OP_UDIV, OP_SREM, OP_UREM };
enum bitwise_operation_t { OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR };
enum int_conv_operation_t { OP_TRUNC, OP_SEXT, OP_ZEXT };
template <typename D> struct abstract_domain_traits;

template <typename D> class abstract_domain_api {
public:
  using number_t = typename abstract_domain_traits<D>::number_t;
  using varname_t = typename abstract_domain_traits<D>::varname_t;
  using interval_t = ikos::interval<number_t>;
  using bound_t = ikos::bound<number_t>;
  using variable_t = crab::variable<number_t, varname_t>;
  using variable_or_constant_t = crab::variable_or_constant<number_t, varname_t>;
  using variable_vector_t = std::vector<variable_t>;
  using variable_or_constant_vector_t = std::vector<variable_or_constant_t>;
  using linear_expression_t = crab::linear_expression<number_t, varname_t>;
  using linear_constraint_t = crab::linear_constraint<number_t, varname_t>;
  using linear_constraint_system_t = crab::linear_constraint_system<number_t, varname_t>;
  using disjunctive_linear_constraint_system_t = crab::disjunctive_linear_constraint_system<number_t, varname_t>;
  using reference_constraint_t = crab::reference_constraint<number_t, varname_t>;
  virtual ~abstract_domain_api() {}
  virtual D make_top() const = 0;
  virtual D make_bottom() const = 0;
  virtual void set_to_top() = 0;
  virtual void set_to_bottom() = 0;
  virtual bool is_bottom() const = 0;
  virtual bool is_top() const = 0;
  virtual bool operator<=(const D &) const = 0;
  virtual void operator|=(const D &) = 0;
  virtual void operator&=(const D &) = 0;
  virtual D operator|(const D &) const = 0;
  virtual D operator&(const D &) const = 0;
  virtual D operator||(const D &) const = 0;
  virtual D widening_thresholds(const D &, const crab::thresholds<number_t> &) const = 0;
  virtual D operator&&(const D &) const = 0;
  virtual void operator-=(const variable_t &) = 0;
  virtual interval_t operator[](const variable_t &) = 0;
  virtual interval_t at(const variable_t &) const = 0;
  virtual void operator+=(const linear_constraint_system_t &) = 0;
  virtual void assign(const variable_t &, const linear_expression_t &) = 0;
  virtual void weak_assign(const variable_t &, const linear_expression_t &) = 0;
  virtual void apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0;
  virtual void apply(arith_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void apply(int_conv_operation_t, const variable_t &, const variable_t &) = 0;
  virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0;
  virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void select(const variable_t &, const linear_constraint_t &, const linear_expression_t &, const linear_expression_t &) = 0;
  virtual void intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &) = 0;
  virtual bool entails(const linear_constraint_t &) const = 0;
  virtual void backward_assign(const variable_t &, const linear_expression_t &, const D &) = 0;
  virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, number_t, const D &) = 0;
  virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &, const D &) = 0;
  virtual void backward_intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &, const D &) = 0;
  virtual void forget(const variable_vector_t &) = 0;
  virtual void project(const variable_vector_t &) = 0;
  virtual void rename(const variable_vector_t &, const variable_vector_t &) = 0;
  virtual void expand(const variable_t &, const variable_t &) = 0;
  virtual void normalize() = 0;
  virtual void minimize() = 0;
  virtual void write(crab::crab_os &) const = 0;
  virtual linear_constraint_system_t to_linear_constraint_system() const = 0;
  virtual disjunctive_linear_constraint_system_t to_disjunctive_linear_constraint_system() const = 0;
  virtual std::string domain_name() const = 0;
};
} } // namespace crab::domains
