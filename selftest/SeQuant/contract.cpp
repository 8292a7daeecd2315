#include <memory>
#include <vector>
#include <string>
namespace sequant {
class Base;
struct ExprPtr : std::shared_ptr<Base> {
  using std::shared_ptr<Base>::shared_ptr;
  ExprPtr(const std::shared_ptr<Base>& p) : std::shared_ptr<Base>(p) {}
};
class Base {
 public:
  virtual ~Base() = default;
  template <typename T>
  static int get_type_id() { static int id = next(); return id; }
  template <typename T>
  static void set_type_id(int) {}
  static int next() { static int n = 0; return ++n; }
  virtual int type_id() const { __builtin_abort(); }
  virtual ExprPtr clone() const { throw 1; }
  virtual void adjoint() { throw 1; }
  virtual const ExprPtr* begin_subexpr() const { return nullptr; }
  virtual const ExprPtr* end_subexpr() const { return nullptr; }
  virtual ExprPtr* begin_subexpr() { return nullptr; }
  virtual ExprPtr* end_subexpr() { return nullptr; }
  virtual bool static_equal(const Base&) const { __builtin_abort(); }
  virtual unsigned long memoizing_hash() const { return 0; }
};
#define ID(T) int type_id() const override { return get_type_id<T>(); }
#define EQ(T) bool static_equal(const Base& o) const override { return v == static_cast<const T&>(o).v; }
#define CL(T) ExprPtr clone() const override { return std::make_shared<T>(*this); }
#define ADJ void adjoint() override { v = -v; }
struct Good : Base { int v = 0; ID(Good) EQ(Good) CL(Good) ADJ };
struct Refined : Good { ExprPtr clone() const override { std::shared_ptr<Base> r = std::make_shared<Refined>(*this); return r; } };
struct NoId : Base { int v = 0; EQ(NoId) CL(NoId) ADJ };
struct WrongId : Base { int v = 0; ID(Good) EQ(WrongId) CL(WrongId) ADJ };
struct NoEq : Base { int v = 0; ID(NoEq) CL(NoEq) ADJ };
struct WrongEq : Base { int v = 0; ID(WrongEq) EQ(Good) CL(WrongEq) ADJ };
struct Slices : Good { };
struct NoClone : Base { int v = 0; ID(NoClone) EQ(NoClone) ADJ };
struct NoAdj : Base { int v = 0; ID(NoAdj) EQ(NoAdj) CL(NoAdj) };
struct Many : Base {
  std::vector<ExprPtr> v; ID(Many) EQ(Many) CL(Many)
  void adjoint() override { for (auto& x : v) x->adjoint(); }
  const std::vector<ExprPtr>& items() const { return v; }
  const ExprPtr* begin_subexpr() const override { return items().data(); }
  const ExprPtr* end_subexpr() const override { const auto n = v.size(); auto b = v.data(); return b + n; }
  ExprPtr* begin_subexpr() override { return &v[0]; }
  ExprPtr* end_subexpr() override { return v.data() + v.size(); }
};
struct OffByOne : Base {
  std::vector<ExprPtr> v; ID(OffByOne) EQ(OffByOne) CL(OffByOne)
  void adjoint() override { for (auto& x : v) x->adjoint(); }
  const ExprPtr* begin_subexpr() const override { return v.data(); }
  const ExprPtr* end_subexpr() const override { return v.data() + (v.size() - 1); }
  ExprPtr* begin_subexpr() override { return v.data(); }
  ExprPtr* end_subexpr() override { return v.data() + v.size(); }
};
struct Hides : Base {
  std::vector<ExprPtr> v; ID(Hides) EQ(Hides) CL(Hides)
  void adjoint() override { for (auto& x : v) x->adjoint(); }
};
bool same(const Base& a, const Base& b) {
  if (a.type_id() != b.type_id()) return false;
  return a.static_equal(b);
}
bool same2(const Base& a, const Base& b) { return a.type_id() == b.type_id() && a.static_equal(b); }
bool unguarded(const Base& a, const Base& b) {
  if (a.memoizing_hash() != b.memoizing_hash()) return false;
  return a.static_equal(b);
}
void fine() {
  int id = 100;
  Base::set_type_id<Good>(id);
  Base::set_type_id<NoId>(--id);
  Base::set_type_id<Many>(id - 1);
}
void clash() {
  int id = 100;
  Base::set_type_id<Good>(id);
  --id;
  Base::set_type_id<NoId>(id);
  Base::set_type_id<Many>(id);
}
}
