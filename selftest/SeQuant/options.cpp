#include <optional>
#include <utility>
#include <vector>
namespace sequant {
struct CanonOptions {
  int method = 1;
  std::optional<std::vector<int>> named = std::nullopt;
  static CanonOptions default_options() { return {}; }
  CanonOptions with(int m) const { CanonOptions r = *this; r.method = m; return r; }
};
struct SimpleOptions : CanonOptions {
  SimpleOptions() = default;
  SimpleOptions(CanonOptions o) : CanonOptions(std::move(o)) {}
};
struct GraphOptions {
  std::optional<std::vector<int>> named = std::nullopt;
  bool distinct = true;
};
struct RunOptions {
  bool screen = true;
  bool topology = false;
};
int step(int, CanonOptions = CanonOptions::default_options());
int graph(GraphOptions);
int low(int, bool screen, bool topology = false);

int good1(int x, CanonOptions o) { return step(x, o); }
int good2(int x, const SimpleOptions& o) { return step(x, o); }
int good3(int x, CanonOptions o) { auto c = o; c.method = 3; return step(x, c); }
int good4(int x, CanonOptions o) { auto f = [&](int y) { return step(y, o); }; return f(x); }
int good5(int x, CanonOptions o) { return step(x, o.with(2)); }
int good6(int x, CanonOptions o) { CanonOptions c; c.method = 7; c.named = o.named; return step(x, c); }
int good7(int x) { return step(x); }
int good8(int x, RunOptions o) { return low(x, o.screen, o.topology); }
int good9(int x, RunOptions o) { const bool t = o.topology; bool s = false; if (o.screen) s = true; return low(x, s, t); }
int good10(CanonOptions o) { return graph({.named = o.named, .distinct = false}); }
CanonOptions quick(CanonOptions o) { o.method = 0; return o; }
int good11(int x, CanonOptions o) { return step(x, quick(std::move(o))); }
int bad11(int x, CanonOptions o) { auto c = o; c.named.reset(); return step(x, c); }
int good12(int x, CanonOptions o) { auto mk = [&o] { auto c = o; c.method = 2; return c; }; return step(x, mk()); }
struct GoodEngine {
  bool s_, t_;
  explicit GoodEngine(const RunOptions& o) : s_(o.screen), t_(o.topology) {}
  bool screen() const { return s_; }
  int run(int x) const { return low(x, screen(), t_); }
};
int bad1(int x, CanonOptions o) { return step(x) + o.method; }
int bad2(int x, CanonOptions o) { auto f = [&](int y) { return step(y); }; return f(x) + o.method; }
int bad3(int x, CanonOptions o) { auto c = CanonOptions::default_options(); c.method = o.method; return step(x, c); }
int bad4(int x, CanonOptions o) { auto c = o; c.named = std::nullopt; return step(x, c); }
int bad5(int x, const SimpleOptions& o) { return step(x, {.method = o.method}); }
int bad6(int x, RunOptions o) { return low(x, o.topology, o.screen); }
int bad7(int x, RunOptions o) { return low(x, o.screen); }
int bad8(CanonOptions) { return graph({.distinct = false}); }
int bad9(int x, CanonOptions o) { return x ? step(x, o) : step(x, CanonOptions{}); }
int bad10(int x, CanonOptions o) { return step(x, x ? o : CanonOptions{}); }
struct BadEngine {
  bool s_, t_ = true;
  explicit BadEngine(const RunOptions& o) : s_(o.screen) {}
  int run(int x) const { return low(x, true, t_); }
};
}  // namespace sequant
