#include <algorithm>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sequant {
struct Cx { double re = 0, im = 0; };
inline Cx conj(Cx c) { return Cx{c.re, -c.im}; }
struct Sub { virtual ~Sub() = default; virtual void adjoint() {} virtual std::shared_ptr<Sub> clone() const { return std::make_shared<Sub>(*this); } };
using Ptr = std::shared_ptr<Sub>;
inline Ptr adjoint(const Ptr& p) { auto r = p->clone(); r->adjoint(); return r; }

struct GoodA { Cx s; std::vector<Ptr> v;
  void adjoint() { s = conj(s); std::reverse(v.begin(), v.end()); for (auto& x : v) x = sequant::adjoint(x); } };
struct GoodB { Cx s; std::vector<Ptr> v;
  void adjoint() { std::vector<Ptr> n; for (auto it = v.rbegin(); it != v.rend(); ++it) { auto c = (*it)->clone(); c->adjoint(); n.push_back(c); }
    v = std::move(n); flip(); }
  void flip() { const auto old = s; s = conj(old); } };
struct GoodC { bool cj = false; Cx s; std::vector<Ptr> v;
  GoodC() = default; GoodC(bool c, Cx x, std::vector<Ptr> w) : cj(c), s(x), v(std::move(w)) {}
  void adjoint() { std::vector<Ptr> n(v.size()); for (std::size_t i = 0; i != v.size(); ++i) n[v.size() - 1 - i] = sequant::adjoint(v[i]);
    *this = GoodC(!cj, conj(s), n); } };
struct GoodD { std::vector<int> b, k; std::string lab;
  void adjoint() { auto t = b; b = k; k = t; if (!lab.empty() && lab.back() == '+') lab.pop_back(); else lab += '+'; } };
struct GoodE { bool cj = false; void adjoint() { cj ^= true; } };
struct GoodF { std::vector<Ptr> v;
  void adjoint() { for (std::size_t i = 0, n = v.size(); i < n / 2; ++i) std::swap(v[i], v[n - 1 - i]); std::transform(v.begin(), v.end(), v.begin(), [](const Ptr& p) { return sequant::adjoint(p); }); } };
struct GoodG { std::vector<Ptr> v; Cx s;
  void adjoint() { s = conj(s); if (v.empty()) return; std::reverse(v.begin(), v.end()); for (auto& x : v) x = sequant::adjoint(x); } };

struct BadScalar { Cx s; std::vector<Ptr> v;
  void adjoint() { std::reverse(v.begin(), v.end()); for (auto& x : v) x = sequant::adjoint(x); } };
struct BadOrder { Cx s; std::vector<Ptr> v;
  void adjoint() { s = conj(s); for (auto& x : v) x = sequant::adjoint(x); } };
struct BadSkip { Cx s; std::vector<Ptr> v; int n = 0;
  void adjoint() { s = conj(s); std::reverse(v.begin(), v.end()); for (auto& x : v) { if (n > 1) continue; x = sequant::adjoint(x); } } };
struct BadPath { Cx s; std::vector<Ptr> v;
  void adjoint() { if (v.empty()) return; s = conj(s); std::reverse(v.begin(), v.end()); for (auto& x : v) x = sequant::adjoint(x); } };
struct BadElem { std::vector<Ptr> v; void adjoint() { std::reverse(v.begin(), v.end()); } };
struct BadTwice { bool cj = false; void adjoint() { cj = !cj; flip(); } void flip() { cj = !cj; } };
struct BadSet { bool cj = false; void adjoint() { cj = true; } };
struct BadSwap { std::vector<int> b, k; std::string lab;
  void adjoint() { b = k; k = b; if (!lab.empty() && lab.back() == '+') lab.pop_back(); else lab += '+'; } };
struct BadMark { std::vector<int> b, k; std::string lab;
  void adjoint() { std::swap(b, k); if (lab.empty() || lab.back() != '+') lab += '+'; } };
}
