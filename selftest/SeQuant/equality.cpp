#include <algorithm>
#include <cstddef>
#include <optional>
#include <string>
#include <vector>
namespace sequant {
struct Good {
  std::string l; std::vector<int> v; bool c = false; mutable int tag_ = 0;
  const std::string& label() const { return l; }
  std::size_t rank() const { return v.size(); }
  std::size_t hash_value() const { return v.size() + l.size(); }
  friend bool operator==(const Good& a, const Good& b) {
    if (&a == &b) return true;
    if (a.rank() != b.rank() || a.c != b.c) return false;
    if (a.hash_value() == b.hash_value()) {
      const auto& x = a.label();
      return x == b.label() && std::equal(a.v.begin(), a.v.end(), b.v.begin());
    } else
      return false;
  }
  friend bool operator!=(const Good& a, const Good& b) { return !(a == b); }
};
struct GoodLoop {
  std::vector<int> v; int k = 0;
  bool operator==(const GoodLoop& b) const {
    if (k != b.k || v.size() != b.v.size()) return false;
    for (std::size_t i = 0; i < v.size(); ++i) if (v[i] != b.v[i]) return false;
    return true;
  }
};
struct Miss { int a = 0, b = 0; bool operator==(const Miss& o) const { return a == o.a; } };
struct Or { int a = 0, b = 0; bool operator==(const Or& o) const { return a == o.a || b == o.b; } };
struct Tagged { int a = 0; mutable int tag_ = 0; bool operator==(const Tagged& o) const { return a == o.a && tag_ == o.tag_; } };
struct Cross { int a = 0, b = 0; bool operator==(const Cross& o) const { return a == o.b && b == o.b; } };
struct Neg { int a = 0, b = 0;
  bool operator==(const Neg& o) const { return a == o.a && b == o.b; }
  bool operator!=(const Neg& o) const { return a != o.a && b != o.b; } };
struct HashMore { int a = 0; mutable int n_ = 0; bool operator==(const HashMore& o) const { return a == o.a; }
  std::size_t hash_value() const { return a + 3 * n_; } };
struct Shortcut { std::vector<int> v; std::string s; std::size_t hash_value() const { return v.size(); }
  bool operator==(const Shortcut& o) const {
    if (v.size() != o.v.size()) return false;
    if (v.empty()) return true;
    return v == o.v && s == o.s; } };
bool use(const Good& a, const GoodLoop& b, const Miss& c, const Or& d, const Tagged& e, const Cross& f, const Neg& g, const HashMore& h, const Shortcut& s) {
  return a == a && a != a && b == b && c == c && d == d && e == e && f == f && g == g && g != g && h == h && h.hash_value() && s == s && s.hash_value(); }
}  // namespace sequant
