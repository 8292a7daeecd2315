#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace sequant {
struct Vtx { std::vector<int> v; void add(int i) { v.push_back(i); } };
class Idx {
 public:
  Idx() = default;
  const std::string& label() const {
    if (label_) return *label_;
    label_ = space_ + std::to_string(ord_);
    return *label_;
  }
  void good_set(int o) { ord_ = o; label_.reset(); }
  void bad_set(int o) { ord_ = o; }
  void good_set2(int o) { if (label_.has_value()) label_ = std::nullopt; ord_ = o; }
  void bad_fill(std::string s) { label_ = std::move(s); }
  void good_copy(const Idx& i) { ord_ = i.ord_; space_ = i.space_; label_ = i.label_; }
  Idx& operator=(const Idx& i) { label_ = i.label_; ord_ = i.ord_; space_ = i.space_; return *this; }
  Idx(const Idx& i) : space_(i.space_), ord_(i.ord_), label_(i.label_) {}
  bool good_flags(int k) {
    bool a = false, b = false;
    if (ord_ != k) { ord_ = k; a = true; }
    if (a) { b = true; }
    if (b) label_.reset();
    return b;
  }
 private:
  std::string space_;
  int ord_ = 0;
  mutable std::optional<std::string> label_;
};
class Net {
 public:
  void good_add(int t) { tensors_.push_back(t); have_edges_ = false; }
  void bad_add(int t) { tensors_.push_back(t); }
  int n() { if (!have_edges_) init(); return edges_.size(); }
  void init() { edges_.clear(); for (int t : tensors_) edges_.push_back(t * 2); have_edges_ = true; }
 private:
  std::vector<int> tensors_, edges_;
  bool have_edges_ = false;
};
class Ten {
 public:
  explicit Ten(std::vector<int> b) : bra_(std::move(b)), net_(bra_.size()) {}
  void good_bra(std::vector<int> b) { bra_ = std::move(b); net_ = bra_.size(); }
  void bad_bra(std::vector<int> b) { bra_ = std::move(b); }
  std::size_t net() const { return net_; }
 private:
  std::vector<int> bra_;
  std::size_t net_;
};
class Mt {
 public:
  const Vtx& vtx() const { if (!label_) { label_ = std::make_unique<Vtx>(); for (int i : v_) label_->add(i); } return *label_; }
  void good_maint(int i) { if (label_) label_->add(i); v_.push_back(i); }
  void good_maint2(int i) { v_.push_back(i); if (label_) label_->add(i); }
  void bad_maint(int i) { if (label_) label_->add(i); v_.push_back(i); v_.push_back(i); }
 private:
  std::vector<int> v_;
  mutable std::unique_ptr<Vtx> label_;
};
int use(Idx& i, Net& n, Ten& t, Mt& m) { return i.label().size() + n.n() + t.net() + m.vtx().v.size(); }
}  // namespace sequant
