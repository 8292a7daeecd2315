#include <array>
#include <optional>
#include <vector>
namespace sequant {
int get(int);
void fill(int& x);
void fillp(int* x);
enum class Kind { A, B };

int good_assign(int b) { int x; if (b) x = 1; else x = 2; return x; }
int good_out() { int x; fill(x); return x; }
int good_outp() { int x; fillp(&x); return x; }
int good_switch(Kind k) { int x; switch (k) { case Kind::A: x = 1; break; case Kind::B: x = 2; break; } return x; }
int good_throw(int b) { int x; if (b) x = 1; else throw 1; return x; }
int good_lambda() { int x; auto f = [&] { x = 1; }; f(); return x; }
int good_loop() { int s = 0; for (int i = 0; i < 3; ++i) { int y; y = i; s += y; } return s; }
std::array<int, 3> good_array() { std::array<int, 3> a; for (int i = 0; i < 3; ++i) a[i] = i; return a; }
std::array<int, 3> good_zero() { std::array<int, 3> a{}; return a; }
int bad_branch(int b) { int x; if (b) x = 1; return x; }
int bad_switch(Kind k) { int x; switch (k) { case Kind::A: x = 1; break; case Kind::B: break; } return x; }
int bad_loop(int n) { int x; for (int i = 0; i < n; ++i) x = i; return x; }
int bad_stale(int n) { int s = 0; for (int i = 0; i < n; ++i) { int y; if (i) y = i; s += y; } return s; }
int bad_add(int n) { int x; for (int i = 0; i < n; ++i) x += i; return x; }
auto bad_capture(int b) { int x; if (b) x = 1; return [x] { return x; }; }

struct GoodMembers { int a = 1; bool b; GoodMembers() : b(false) {} GoodMembers(int x) : GoodMembers() { a = x; } };
struct GoodBody { int a; GoodBody(int x) { if (x) a = 1; else a = 2; } };
struct GoodHelper { int a; void reset() { a = 0; } GoodHelper() { reset(); } };
struct GoodPtr { int* p; explicit GoodPtr(int* q) : p{q} {} };
struct BadMember { int a = 1; bool b; BadMember() {} BadMember(bool x) : b(x) {} };
struct BadBody { int a; BadBody(int x) { if (x) a = 1; } };
struct BadPtr { int* p; std::vector<int> v; BadPtr(int n) : v(n) {} };
struct BadOrder { int a; int b; BadOrder(int x) : a(b + 1), b(x) {} };
struct BadCopy { int a; std::vector<int> v; BadCopy() : a(0) {} BadCopy(const BadCopy& o) : v(o.v) {} };
struct Plain { int a; int b = 2; };
struct BadNested { Plain p; BadNested() {} };
struct GoodNested { Plain p{}; GoodNested() {} };
struct GoodNested2 { Plain p; GoodNested2() : p() {} };
Plain good_plain() { Plain p{}; return p; }
Plain good_plain2(int x) { Plain p; p.a = x; return p; }
Plain bad_plain(int x) { Plain p; if (x) p.a = x; return p; }
}  // namespace sequant
