#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <cstdint>
#include <memory>
#include <vector>
namespace sequant {
using rational = boost::multiprecision::cpp_rational;
using Int = rational::value_type;
struct Constant {
  template <class U>
  explicit Constant(U &&u) : v(std::forward<U>(u)) {}
  rational v;
};
template <class T, class... A>
std::shared_ptr<T> ex(A &&...a) {
  return std::make_shared<T>(std::forward<A>(a)...);
}
struct Prod {
  rational s{1};
  template <class T>
  Prod &scale(T x) {
    s *= x;
    return *this;
  }
};
Int fact(std::size_t n);
double norm(const rational &);
struct Number {
  double num;
};

rational bad_float(double x) { return rational(x + 0.25); }
rational call_bad() { return bad_float(0.5); }
void bad_sqrt(Prod &p, int n) { p.scale(std::sqrt(n)); }
void bad_decimal(Prod &p) { p.scale(0.1); }
void bad_parse(Prod &p, const Number &n) { p.scale(rational(static_cast<std::int64_t>(n.num), 1)); }
std::shared_ptr<Constant> bad_make(const Number &n) { return ex<Constant>(n.num); }
rational bad_shift(int n) { return rational(1 << n); }
static int bad_fac(int n) {
  int r = 1;
  for (int i = 2; i <= n; ++i) r *= i;
  return r;
}
rational call_fac(int n) { return rational(1, bad_fac(n)); }
int cnt1(const Prod &);
int cnt2(const Prod &);
rational bad_product(const Prod &p) { return rational(cnt1(p) * cnt2(p)); }
rational bad_divide(int a, int b) { return rational(a / b); }
rational bad_bigdivide(const Int &a, const Int &b) { return rational(a / b); }
rational bad_narrow(const rational &r) { return rational(static_cast<long>(numerator(r)), 2); }
rational bad_convert(const rational &r) { return rational(numerator(r).convert_to<int>()); }
rational bad_root(const Int &a) {
  Int r = sqrt(a);
  return rational(r);
}
bool bad_compare(const rational &r) { return std::abs(static_cast<double>(r)) < 1e-12; }
bool bad_compare2(const rational &r) {
  const double d = r.convert_to<double>();
  if (d > 0.5) return true;
  return false;
}

rational good_half() { return rational(0.5); }
rational good_int(int n) { return rational(n); }
rational good_sign(const std::vector<int> &v) {
  int phase = 1;
  for (auto x : v)
    if (x % 2) phase *= -1;
  return rational(phase);
}
rational good_sign2(bool a, bool b) {
  const int s = a ? -1 : 1;
  const int t = b ? 1 : -1;
  return rational(s * t, 2);
}
rational good_signed_count(const Prod &p, bool a) { return rational(cnt1(p) * (a ? -1 : 1)); }
rational good_fact(std::size_t n, std::size_t m) { return rational(1, fact(n) * fact(m)); }
rational good_shift(int n) { return rational(Int{1} << n); }
rational good_bounded(int n) {
  if (n > 30) throw 1;
  return rational(1 << n);
}
rational good_pairs(int n) { return rational(n * (n - 1) / 2); }
rational good_div(const rational &a, const Int &b) { return a / b; }
rational good_root(const Int &a) {
  Int rem;
  Int r = sqrt(a, rem);
  if (rem != 0) return 0;
  return rational(r);
}
Int good_halve(Int e) {
  while (e > 0) e /= 2;
  return e;
}
rational good_one_over(const rational &r) { return 1.0 / r; }
double good_cost(const rational &r) { return r.convert_to<double>(); }
rational good_numeric(int a) {
  const auto x = a + 1;
  Prod p;
  p.scale(x).scale(-1).scale(2 * a);
  return p.s;
}
struct Tree {
  int phase() const { return ph; }
  int ph;
};
void good_phases(Prod &p, const Tree &a, const Tree &b, bool first) {
  const int x = first ? 1 : a.phase() * b.phase();
  p.scale(x);
}
rational good_sizes(const std::vector<int> &a, const std::vector<int> &b) { return rational(1, a.size() * b.size()); }
rational bad_sizes(const std::vector<std::vector<int>> &a) {
  std::size_t n = 1;
  for (const auto &x : a) n *= x.size();
  return rational(1, n);
}
static int bad_recursive(int n) { return n < 2 ? 1 : n * bad_recursive(n - 1); }
rational call_recursive(int n) { return rational(1, bad_recursive(n)); }
}  // namespace sequant
