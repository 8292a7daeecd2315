#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
namespace st {
struct Idx {
  std::string label;
  std::vector<int> protos;
  const std::string& text() const { return label; }
};
struct Expr {
  std::vector<Idx> idx;
  const std::vector<Idx>& indices() const { return idx; }
  std::shared_ptr<Expr> clone() const { return std::make_shared<Expr>(*this); }
};
Expr make();
void use(const Idx&);
void usei(int);
void take(std::string s, std::size_t n);
void both(std::vector<int> v, const std::vector<int>& w);

// ---- moves
struct bad_ctor {
  std::string l;
  std::size_t n;
  bad_ctor(std::string label) : l(std::move(label)), n(label.size()) {}
};
struct good_ctor {
  std::string l;
  std::size_t n;
  good_ctor(std::string label) : l(std::move(label)), n(l.size()) {}
};
std::size_t bad_after(std::vector<Idx> v) {
  auto w = std::move(v);
  return w.size() + v.size();
}
std::size_t good_after(std::vector<Idx> v) {
  const auto n = v.size();
  auto w = std::move(v);
  return w.size() + n;
}
void bad_order(std::string s) { take(std::move(s), s.size()); }
void good_order(std::string s) {
  auto n = s.size();
  take(std::move(s), n);
}
std::vector<std::string> bad_loop(std::string s, int n) {
  std::vector<std::string> r;
  for (int i = 0; i != n; ++i) r.push_back(std::move(s));
  return r;
}
std::vector<std::string> good_loop(std::string s, int n) {
  std::vector<std::string> r;
  for (int i = 0; i != n; ++i) {
    std::string t = s;
    r.push_back(std::move(t));
  }
  return r;
}
std::string bad_branch(std::string s, bool b) {
  std::string r;
  if (b) r = std::move(s);
  return r + s;
}
std::string good_branch(std::string s, bool b) {
  std::string r;
  if (b) {
    r = std::move(s);
  } else {
    r = s;
  }
  s = r;
  return r + s;
}
struct Holder {
  std::string m;
  std::string bad_member() {
    std::string r = std::move(m);
    if (m.empty()) return r;
    return r + m;
  }
  std::string good_member() {
    std::string r = std::move(m);
    m.clear();
    if (m.empty()) return r;
    return r + m;
  }
};
std::function<std::size_t()> bad_capture(std::vector<int> v, std::size_t& n) {
  auto f = [w = std::move(v)] { return w.size(); };
  n = v.size();
  return f;
}
std::unique_ptr<int> good_machine(int n) {
  std::unique_ptr<int> ret, l, r;
  for (int stage = 0; stage < n; ++stage) {
    switch (stage % 3) {
      case 0: ret = std::make_unique<int>(stage); break;
      case 1: l = std::move(ret); break;
      default: r = std::move(ret); ret = std::move(l); break;
    }
  }
  return ret;
}
std::string good_self(std::string s) {
  auto grow = [](std::string x) { return x + "a"; };
  s = grow(std::move(s));
  s = grow(std::move(s));
  return s;
}
bool good_test(std::unique_ptr<int> p) {
  auto q = std::move(p);
  return p == nullptr && q;
}

// ---- invalidation
void bad_push(std::vector<Idx>& v) {
  const Idx& front = v.front();
  v.push_back(Idx{});
  use(front);
}
void good_push(std::vector<Idx>& v) {
  const Idx front = v.front();
  v.push_back(Idx{});
  use(front);
}
void good_push2(std::vector<Idx>& v) {
  v.push_back(Idx{});
  const Idx& front = v.front();
  use(front);
}
void good_reserved(std::vector<Idx>& v) {
  v.reserve(v.size() + 1);
  const Idx& front = v.front();
  v.push_back(Idx{});
  use(front);
}
void bad_erase(std::map<int, Idx>& m, int k) {
  auto it = m.find(k);
  if (it == m.end()) return;
  m.erase(it);
  use(it->second);
}
void good_erase(std::map<int, Idx>& m, int k) {
  auto it = m.find(k);
  if (it == m.end()) return;
  use(it->second);
  m.erase(it);
}
void good_erase_loop(std::map<int, Idx>& m) {
  for (auto it = m.begin(); it != m.end();) {
    if (it->second.label.empty())
      it = m.erase(it);
    else
      ++it;
  }
}
void bad_erase_loop(std::map<int, Idx>& m) {
  for (auto it = m.begin(); it != m.end(); ++it) {
    if (it->second.label.empty()) m.erase(it);
  }
}
void good_map(std::map<int, Idx>& m) {
  Idx& a = m[1];
  m[2] = a;
  use(a);
}
void bad_hash_iter(std::unordered_map<int, Idx>& m) {
  auto it = m.find(1);
  m.emplace(2, Idx{});
  use(it->second);
}
void good_hash_ref(std::unordered_map<int, Idx>& m) {
  Idx& a = m[1];
  m.emplace(2, Idx{});
  use(a);
}
void bad_range(std::vector<Idx>& v) {
  for (auto& x : v)
    if (x.label.empty()) v.push_back(x);
}
void good_range(std::vector<Idx>& v) {
  for (auto& x : v)
    if (x.label.empty()) {
      v.push_back(Idx{});
      break;
    }
}
void good_tie(std::map<int, Idx>& m, int k) {
  auto it = m.find(k);
  if (it == m.end()) {
    bool inserted;
    std::tie(it, inserted) = m.emplace(k, Idx{});
  }
  use(it->second);
}
void good_tie2(std::vector<int>& m, int k) {
  auto it = std::find(m.begin(), m.end(), k);
  if (it == m.end()) it = m.insert(m.end(), k);
  usei(*it);
}
void bad_alias_erase(std::unordered_map<int, Idx>& m, int k) {
  auto it = m.find(k);
  if (it == m.end()) return;
  auto& x = it->second;
  m.erase(it);
  use(x);
}
void good_alias_erase(std::unordered_map<int, Idx>& m, int k) {
  auto it = m.find(k);
  if (it == m.end()) return;
  auto x = it->second;
  m.erase(it);
  use(x);
}
int good_stack(std::vector<std::pair<int, int>>& s) {
  auto* top = &s.back();
  while (top->first == top->second) {
    s.pop_back();
    if (s.empty()) break;
    top = &s.back();
  }
  if (s.empty()) return 0;
  return ++top->second;
}
int bad_stack(std::vector<std::pair<int, int>>& s) {
  auto* top = &s.back();
  s.pop_back();
  return top->second;
}

// ---- dangling
const std::string& bad_ret(const Expr& e) {
  std::string s = e.idx.front().label;
  return s;
}
const std::string& good_ret(const Expr& e) {
  const std::string& s = e.idx.front().label;
  return s;
}
std::string_view bad_view(const Expr& e) {
  std::string s = e.idx.front().label + "x";
  return s;
}
std::string_view good_view(const Expr& e) { return e.idx.front().label; }
std::function<int(int)> bad_lambda(int k) {
  return [&](int x) { return x + k; };
}
std::function<int(int)> good_lambda(int k) {
  return [=](int x) { return x + k; };
}
int good_inner(std::vector<int> v, int k) {
  return static_cast<int>(std::count_if(v.begin(), v.end(), [&](int x) { return x == k; }));
}
void bad_temp() {
  for (auto& i : make().indices()) use(i);
}
void good_temp() {
  auto e = make();
  for (auto& i : e.indices()) use(i);
}
void bad_temp2(const Expr& e) {
  const auto& idx = e.clone()->indices();
  for (auto& i : idx) use(i);
}
void good_temp2(const Expr& e) {
  const auto c = e.clone();
  const auto& idx = c->indices();
  for (auto& i : idx) use(i);
}
void bad_sv(const Expr& e) {
  std::string_view s = e.idx.front().label + "x";
  take(std::string(s), 1);
}
int* bad_addr() {
  int x = 1;
  int* p = &x;
  return &x;
}
const char* bad_cstr(const Expr& e) {
  std::string s = e.idx.front().label;
  return s.c_str();
}
}  // namespace st
