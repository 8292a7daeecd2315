#include <cstddef>
#include <set>
#include <string>
#include <utility>
#include <vector>
void fail();
#define SEQUANT_ASSERT(c) do { if (!(c)) fail(); } while (0)
struct S { std::vector<int> v; mutable int memo = 0;
  bool add(int x) { v.push_back(x); return true; }
  bool has(int x) const { memo++; return !v.empty() && v[0] == x; } };
bool eat(std::string s) { return s.empty(); }
bool sets(int& o) { o = 1; return true; }
void bad_increment(int& n) { SEQUANT_ASSERT(++n > 0); }
void bad_insert(std::set<int>& s) { SEQUANT_ASSERT(s.insert(3).second); }
void bad_callee(S& s) { SEQUANT_ASSERT(s.add(1)); }
void bad_move(std::string s) { SEQUANT_ASSERT(eat(std::move(s))); }
int bad_ref() { int k = 0; SEQUANT_ASSERT(sets(k)); return k; }
void good_read(const std::set<int>& s) { SEQUANT_ASSERT(s.find(3) != s.end()); }
void good_memo(S& s) { SEQUANT_ASSERT(s.has(1)); }
void good_local(std::vector<int>& v) {
  SEQUANT_ASSERT([&] { std::size_t n = 0; for (auto& x : v) n += x; return n > 0; }());
}
