#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <utility>
#include <vector>
namespace sequant {
int may_fail(int);
struct Expr { int v; };
struct ExprPtr { Expr* p; };

// ---- a setting
using comparer = std::function<bool(int, int)>;
struct Registry {
  static comparer cmp_;
  static const comparer& get() { return cmp_; }
  static void set(comparer c) { cmp_ = std::move(c); }
  static std::map<int, int> map_;
  static bool add(int k, int v) { return map_.try_emplace(k, v).second; }
  static void remove(int k) { map_.erase(k); }
};
comparer Registry::cmp_;
std::map<int, int> Registry::map_;

template <typename F>
struct scope_exit_t {
  F f;
  explicit scope_exit_t(F x) : f(std::move(x)) {}
  scope_exit_t(const scope_exit_t&) = delete;
  ~scope_exit_t() { f(); }
};

ExprPtr good_guard(ExprPtr e) {
  const auto old = Registry::get();
  Registry::set([](int a, int b) { return a > b; });
  auto g = scope_exit_t([&] { Registry::set(old); });
  may_fail(1);
  return e;
}
ExprPtr good_before(ExprPtr e) {
  auto g = scope_exit_t([old = Registry::get()] { Registry::set(old); });
  Registry::set([](int a, int b) { return a > b; });
  may_fail(1);
  return e;
}
ExprPtr bad_manual(ExprPtr e) {
  const auto old = Registry::get();
  Registry::set([](int a, int b) { return a > b; });
  may_fail(1);
  Registry::set(old);
  return e;
}
ExprPtr bad_alias(ExprPtr e) {
  const auto& old = Registry::get();
  Registry::set([](int a, int b) { return a > b; });
  auto g = scope_exit_t([&] { Registry::set(old); });
  may_fail(1);
  return e;
}
ExprPtr bad_early(ExprPtr e, bool b) {
  const auto old = Registry::get();
  Registry::set([](int x, int y) { return x > y; });
  if (b) return e;
  Registry::set(old);
  return e;
}

// ---- deleter with flags
struct GoodUndo {
  bool added = false;
  void operator()(void*) { if (added) Registry::remove(1); }
};
ExprPtr good_deleter(ExprPtr e) {
  std::unique_ptr<void, GoodUndo> g;
  auto disable = [&g] {
    if (!g) {
      g = decltype(g)((void*)&g, {});
      g.get_deleter().added = Registry::add(1, 2);
    }
  };
  disable();
  may_fail(2);
  return e;
}
ExprPtr bad_late(ExprPtr e) {
  std::unique_ptr<void, GoodUndo> g;
  const bool was = Registry::add(1, 2);
  may_fail(2);
  g = decltype(g)((void*)&g, {});
  g.get_deleter().added = was;
  return e;
}

// ---- implicit value and its resetter
template <typename C>
C& slot() { static C c; return c; }
template <typename C>
void set_slot(C c) { slot<C>() = std::move(c); }
template <typename C>
struct GoodResetter {
  GoodResetter() = default;
  GoodResetter(const C& c) : prev(c) {}
  GoodResetter(const GoodResetter&) = delete;
  ~GoodResetter() { if (prev) set_slot<C>(*prev); }
  std::optional<C> prev;
};
template <typename C>
GoodResetter<C> good_scoped(const C& c) {
  if (slot<C>() != c) {
    auto prev = slot<C>();
    set_slot<C>(c);
    return prev;
  }
  return {};
}
template <typename C>
GoodResetter<C> bad_scoped(const C& c) {
  const auto& prev = slot<C>();
  set_slot<C>(c);
  return prev;
}
template <typename C>
GoodResetter<C> bad_scoped_late(const C& c) {
  set_slot<C>(c);
  auto prev = slot<C>();
  return prev;
}
ExprPtr good_use(ExprPtr e) { auto r = good_scoped<int>(3); may_fail(1); return e; }
ExprPtr bad_drop(ExprPtr e) { good_scoped<int>(3); may_fail(1); return e; }
template GoodResetter<int> bad_scoped<int>(const int&);
template GoodResetter<int> bad_scoped_late<int>(const int&);

// ---- tags
class Taggable {
 public:
  void assign(int t) const { tag_ = t; }
  void reset() const { tag_.reset(); }
 private:
  mutable std::optional<int> tag_;
};
struct Index : Taggable {
  bool transform(int m) { if (m) { assign(0); return true; } return false; }
};
struct Tensor : Expr {
  std::vector<Index> ix;
  bool transform(int m) { bool r = false; for (auto& i : ix) if (i.transform(m)) r = true; return r; }
  void reset_tags() const { for (auto& i : ix) i.reset(); }
};
ExprPtr wrap(Tensor);
void good_apply(Tensor& t, int m) { t.transform(m); t.reset_tags(); }
ExprPtr good_copy(const Tensor& t, int m) { Tensor r = t; r.transform(m); r.reset_tags(); return wrap(r); }
Tensor make_tagged(const Tensor& t, int m) { Tensor r = t; r.transform(m); return r; }
ExprPtr good_taker(const Tensor& t) { auto r = make_tagged(t, 1); r.reset_tags(); return wrap(r); }
ExprPtr bad_skip(const Tensor& t, int m) {
  Tensor r = t;
  r.transform(m);
  if (m == 2) return wrap(r);
  r.reset_tags();
  return wrap(r);
}
Tensor bad_never(const Tensor& t, int m) { Tensor r = t; r.transform(m); return r; }
}  // namespace sequant
