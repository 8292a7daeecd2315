#include <cstddef>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace sequant {
struct Expr {
  virtual ~Expr() = default;
  mutable std::optional<std::size_t> hash_value_;
  virtual std::size_t memoizing_hash() const { return 0; }
  virtual void reset_hash_value() const { hash_value_.reset(); }
  std::size_t hash_value() const { return memoizing_hash(); }
  bool operator==(const Expr& o) const { return typeid_() == o.typeid_() && static_equal(o); }
  virtual int typeid_() const { return 0; }
  virtual bool static_equal(const Expr&) const { return false; }
};
class Node : public Expr {
 public:
  std::size_t memoizing_hash() const override {
    auto compute = [this]() { std::size_t h = label_.size(); for (auto& i : v_) h += i; return h; };
    if (!hash_value_) hash_value_ = compute();
    return *hash_value_;
  }
  void good_set(std::string s) { label_ = std::move(s); reset_hash_value(); }
  void bad_set(std::string s) { label_ = std::move(s); }
  void bad_branch(std::string s, bool b) { label_ = std::move(s); if (b) return; reset_hash_value(); }
  void bad_early(int i) { reset_hash_value(); (void)hash_value(); v_.push_back(i); }
  void good_early(int i) { reset_hash_value(); v_.push_back(i); }
  void bad_helper(int i) { helper(i); }
  void good_helper(int i) { helper(i); clear_it(); }
  std::vector<int>& bad_out() { return v_; }
  std::vector<int>& good_out() { clear_it(); return v_; }
  const std::vector<int>& good_cout() const { return v_; }
  bool good_flag(int i) { bool m = false; for (auto& x : v_) if (x != i) { x = i; m = true; } if (m) reset_hash_value(); return m; }
  void good_assign() { *this = Node{}; }
  void good_swap(Node& o) { Node t = std::move(o); o = std::move(*this); *this = std::move(t); }
  void bad_lambda(int k) { auto f = [&](int& x) { x = k; }; for (auto& x : v_) f(x); }
  bool static_equal(const Expr& that) const override {
    auto& o = static_cast<const Node&>(that); return label_ == o.label_ && v_ == o.v_; }
 private:
  void helper(int i) { v_[0] = i; }
  void clear_it() { reset_hash_value(); }
  std::string label_;
  std::vector<int> v_;
};
std::size_t use(Node& n) { n.good_assign(); Node m; m.good_swap(n); m.bad_set("a"); return n.hash_value(); }
}  // namespace sequant
