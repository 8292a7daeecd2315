#include <memory>
#include <utility>
#include <vector>
namespace sequant {
class Expr;
struct ExprPtr : std::shared_ptr<Expr> {
  using std::shared_ptr<Expr>::shared_ptr;
  ExprPtr(const std::shared_ptr<Expr>& p) : std::shared_ptr<Expr>(p) {}
  template <typename T> bool is() const { return dynamic_cast<T*>(get()); }
};
class Expr {
 public:
  virtual ~Expr() = default;
  virtual ExprPtr canonicalize() { return {}; }
};
struct Constant : Expr { int v = 0; Constant() = default; Constant(int x) : v(x) {} int value() const { return v; } };
struct Tensor : Expr { ExprPtr canonicalize() override { return std::make_shared<Constant>(-1); } };
struct Product : Expr { int s = 1; std::vector<ExprPtr> f; };
template <typename T, typename... A> ExprPtr ex(A&&... a) { return std::make_shared<T>(a...); }
inline ExprPtr operator*(const ExprPtr& a, const ExprPtr& b) { return ex<Product>(); }
inline ExprPtr& operator*=(ExprPtr& a, const ExprPtr& b) { return a; }
template <typename T> void reset_ts_swap_counter() {}
template <typename T> bool ts_swap_counter_is_even() { return true; }
template <typename I> void bubble_sort(I, I) {}
void sink(const ExprPtr&);

ExprPtr good1(ExprPtr e) { auto bp = e->canonicalize(); if (bp) e = bp * e; return e; }
void good2(ExprPtr& e) { if (auto bp = e->canonicalize(); bp) { e = ex<Product>() * bp; } }
void good3(ExprPtr e, int& s) { auto bp = e->canonicalize(); if (!bp) return; s *= std::static_pointer_cast<Constant>(bp)->value(); }
void good4(ExprPtr e, int& s) {
  auto bp = e->canonicalize();
  int k = bp ? std::static_pointer_cast<Constant>(bp)->value() : 1;
  if (k == 1) return;
  s *= k;
}
ExprPtr helper(ExprPtr e) { ExprPtr r = e->canonicalize(); return r; }
void good5(ExprPtr e) { sink(helper(e)); }
void good6() { auto p = ex<Product>() ; p->canonicalize(); }
void good7(std::vector<ExprPtr>& v) { ExprPtr acc = ex<Constant>(1); for (auto& e : v) { auto b = e->canonicalize(); if (b) acc *= b; } sink(acc); }
void good8(std::vector<ExprPtr>& v, int& s) { auto one = [&s](ExprPtr& e) { auto b = e->canonicalize(); if (b) s *= std::static_pointer_cast<Constant>(b)->value(); }; for (auto& e : v) one(e); }
int good9(std::vector<int> v) { reset_ts_swap_counter<int>(); bubble_sort(v.begin(), v.end()); return ts_swap_counter_is_even<int>() ? 1 : -1; }

void bad_discard(ExprPtr e) { e->canonicalize(); }
void bad_helper(ExprPtr e) { helper(e); }
void bad_test(ExprPtr e) { if (e->canonicalize()) sink(e); }
void bad_path(ExprPtr& e, bool q) { auto bp = e->canonicalize(); if (bp && q) e = bp * e; }
void bad_loop(std::vector<ExprPtr>& v) { ExprPtr bp; for (auto& e : v) bp = e->canonicalize(); if (bp) sink(bp); }
void bad_lambda(std::vector<ExprPtr>& v) { auto one = [](ExprPtr& e) { auto b = e->canonicalize(); if (b) (void)b->canonicalize(); }; for (auto& e : v) one(e); }
void bad_acc(std::vector<ExprPtr>& v) { ExprPtr acc = ex<Constant>(1); for (auto& e : v) { auto b = e->canonicalize(); if (b) acc *= b; } }
int bad_sign(std::vector<int> v) { auto s = good9(v); v.clear(); return 1; }
int bad_parity(std::vector<int> v) { bubble_sort(v.begin(), v.end()); return ts_swap_counter_is_even<int>() ? 1 : -1; }
int bad_nested(std::vector<int> v) { reset_ts_swap_counter<int>(); bubble_sort(v.begin(), v.end()); sink(v.size() ? ex<Constant>(good9(v)) : nullptr); return ts_swap_counter_is_even<int>() ? 1 : -1; }
std::pair<int, ExprPtr> order(std::vector<int>& v) { int ph = 1; for (auto& x : v) if (x < 0) { x = -x; ph *= -1; } return {ph, ex<Constant>(int(v.size()))}; }
ExprPtr good10(std::vector<int> v, int& pre) { auto [ph, e] = order(v); pre *= ph; return e; }
ExprPtr bad_signret(std::vector<int> v, int& pre) { auto [ph, e] = order(v); pre *= 2; return e; }
int bad_signvar(std::vector<int>& v) { int ph = 1; for (auto& x : v) if (x < 0) { x = -x; ph = -ph; } return int(v.size()); }
struct Leaf {
  ExprPtr expr_; signed char phase_ = 1;
  void init() { auto& t = *expr_; auto bp = t.canonicalize(); phase_ = bp ? -1 : 1; }
};
}  // namespace sequant
