#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sequant {
struct Sub { int v = 0; std::shared_ptr<Sub> clone() const { return std::make_shared<Sub>(*this); } };
using Ptr = std::shared_ptr<Sub>;

class Good {
  int a_ = 0; std::string b_; mutable int memo_ = 0;
 public:
  Good() = default;
  Good(const Good& o) : a_(o.a_), b_(o.b_) {}
  Good& operator=(const Good& o) { if (this == &o) return *this; a_ = o.a_; b_ = o.b_; return *this; }
};
class GoodSwap {
  int a_ = 0; std::string b_;
 public:
  GoodSwap() = default;
  GoodSwap(const GoodSwap& o) : a_(o.get()), b_(o.b_) {}
  GoodSwap(GoodSwap&& o) noexcept : GoodSwap(static_cast<const GoodSwap&>(o)) {}
  GoodSwap& operator=(const GoodSwap& o) { GoodSwap t(o); std::swap(a_, t.a_); b_ = std::move(t.b_); return *this; }
  int get() const { return a_; }
};
class GoodLoop {
  std::vector<std::string> v_; int n_ = 0;
 public:
  GoodLoop() = default;
  GoodLoop(const GoodLoop& o) { v_.reserve(o.v_.size()); for (const auto& s : o.v_) v_.push_back(s); n_ = o.n_; }
};
class MissInit {
  int a_ = 0; std::string b_;
 public:
  MissInit() = default;
  MissInit(const MissInit& o) : a_(o.a_) {}
};
class MissAsg {
  int a_ = 0; std::string b_;
 public:
  MissAsg() = default;
  MissAsg& operator=(const MissAsg& o) { a_ = o.a_; return *this; }
};
struct Bs { int z_ = 0; Bs() = default; Bs(const Bs&) = default; Bs& operator=(const Bs& o) { z_ = o.z_; return *this; } };
class BaseOnly : public Bs {
  int a_ = 0;
 public:
  BaseOnly() = default;
  BaseOnly& operator=(const BaseOnly& o) { static_cast<Bs&>(*this) = static_cast<const Bs&>(o); return *this; }
};
class BaseAll : public Bs {
  int a_ = 0;
 public:
  BaseAll() = default;
  BaseAll& operator=(const BaseAll& o) { static_cast<Bs&>(*this) = static_cast<const Bs&>(o); a_ = o.a_; return *this; }
};
class BaseMiss : public Bs {
  int a_ = 0;
 public:
  BaseMiss() = default;
  BaseMiss& operator=(const BaseMiss& o) { a_ = o.a_; return *this; }
};
class PathAsg {
  int a_ = 0; std::string b_;
 public:
  PathAsg() = default;
  PathAsg& operator=(const PathAsg& o) { a_ = o.a_; if (o.a_ > 0) b_ = o.b_; return *this; }
};
class Cross {
  int a_ = 0, b_ = 0;
 public:
  Cross() = default;
  Cross(const Cross& o) : a_(o.a_), b_(o.a_) {}
};
class CloneGood {
  int a_ = 0; Ptr p_;
 public:
  CloneGood(int a, Ptr p) : a_(a), p_(p) {}
  CloneGood clone() const { return CloneGood(a_, p_->clone()); }
};
class CloneGood2 {
  int a_ = 0; Ptr p_;
 public:
  CloneGood2 clone() const { CloneGood2 r(*this); r.p_ = std::make_shared<Sub>(*p_); return r; }
};
class CloneGood3 {
  int a_ = 0; Ptr p_;
 public:
  CloneGood3(int a, Ptr p) : a_(a) { p_ = p->clone(); }
  std::shared_ptr<CloneGood3> clone() const { auto r = std::make_shared<CloneGood3>(a_, p_); return r; }
};
class CloneMiss {
  int a_ = 0, b_ = 0;
 public:
  CloneMiss(int a, int b = 0) : a_(a), b_(b) {}
  std::shared_ptr<CloneMiss> clone() const { return std::make_shared<CloneMiss>(a_); }
};
class CloneShare {
  int a_ = 0; Ptr p_;
 public:
  CloneShare clone() const { CloneShare r(*this); r.a_ = a_; return r; }
};
class CloneShare2 {
  int a_ = 0; Ptr p_;
 public:
  CloneShare2(int a, Ptr p) : a_(a), p_(p) {}
  std::shared_ptr<CloneShare2> clone() const { return std::make_shared<CloneShare2>(a_, p_); }
};
class CloneSwap {
  int a_ = 0, b_ = 0;
 public:
  CloneSwap(int a, int b) : a_(a), b_(b) {}
  CloneSwap clone() const { return CloneSwap(b_, a_); }
};
class CloneFill {
  int a_ = 0; std::vector<Ptr> v_;
 public:
  explicit CloneFill(int a) : a_(a) {}
  void add(const Ptr& p) { v_.push_back(p); }
  CloneFill clone() const { CloneFill r(a_); for (const auto& p : v_) r.add(p); return r; }
};
class CloneFillGood {
  int a_ = 0; std::vector<Ptr> v_;
 public:
  explicit CloneFillGood(int a) : a_(a) {}
  void add(const Ptr& p) { v_.push_back(p); }
  CloneFillGood clone() const { CloneFillGood r(a_); for (const auto& p : v_) r.add(p->clone()); return r; }
};
class NetGood {
  std::vector<Ptr> t_;
 public:
  NetGood() = default;
  NetGood(const NetGood& o) { for (const auto& t : o.t_) t_.emplace_back(t->clone()); }
  NetGood& operator=(const NetGood& o) { NetGood x(o); t_ = std::move(x.t_); return *this; }
};
class NetBad {
  std::vector<Ptr> t_;
 public:
  NetBad() = default;
  NetBad(const NetBad& o) { for (const auto& t : o.t_) t_.emplace_back(t); }
};
class NetDflt { std::vector<Ptr> t_; public: NetDflt() = default; NetDflt(const NetDflt&) = default; };
class ValGood { int a_; std::string s_; };
class ValBad { int a_; std::shared_ptr<std::string> s_; };
inline void use() {
  Good g, g2(g); g2 = g; GoodSwap s, s2(s), s3(std::move(s2)); s3 = s; GoodLoop l, l2(l);
  MissInit m, m2(m); MissAsg q, q2; q2 = q; PathAsg p, p2; p2 = p; Cross c, c2(c);
  CloneGood(1, nullptr).clone(); CloneGood2().clone(); CloneGood3(1, nullptr).clone(); CloneMiss(1).clone();
  CloneShare().clone(); CloneShare2(1, nullptr).clone(); CloneSwap(1, 2).clone(); CloneFill(1).clone(); CloneFillGood(1).clone();
  NetGood n, n2(n); n2 = n; NetBad b, b2(b); NetDflt d, d2(d); ValGood vg{}; ValBad vb{};
  (void)vg; (void)vb;
}
}  // namespace sequant
