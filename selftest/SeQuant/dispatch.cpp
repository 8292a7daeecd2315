
#include <cstdlib>
#include <initializer_list>
#include <stdexcept>
#include <string>
namespace sequant {
enum class Sym { A, B, C };
enum class Op { Sum, Product, Adjoint, Power };
enum class Bits : int { none = 0, up = 1, down = 2, any = 3 };
[[noreturn]] void fail();

int bad_default(Sym s) {
  switch (s) {
    case Sym::A:
      return 1;
    default:
      return 2;
  }
}
int bad_missing(Sym s) {
  int r = 0;
  switch (s) {
    case Sym::A:
      r = 1;
      break;
    case Sym::B:
      r = 2;
      break;
  }
  return r;
}
int bad_fall(Sym s) {
  int r = 0;
  switch (s) {
    case Sym::A:
      r = 1;
    case Sym::B:
      r = 2;
      break;
    case Sym::C:
      r = 3;
      break;
  }
  return r;
}
int bad_chain(Op o) {
  if (o == Op::Sum) {
    return 1;
  } else if (o == Op::Product) {
    return 2;
  } else {
    return 3;
  }
}
int bad_early(Op o) {
  if (o == Op::Sum) return 1;
  if (o == Op::Product) return 2;
  return 3;
}
int bad_cond(Op o) { return o == Op::Sum ? 1 : o == Op::Product ? 2 : 3; }
int bad_bools(Op o) {
  const bool is_sum = o == Op::Sum;
  const bool is_prod = o == Op::Product;
  if (is_sum) return 1;
  if (is_prod) return 2;
  return 3;
}
int bad_cast(Sym s) {
  switch (static_cast<int>(s)) {
    case static_cast<int>(Sym::A):
      return 1;
    default:
      return 0;
  }
}
int bad_end(Sym s) {
  switch (s) {
    case Sym::A:
      return 1;
    case Sym::B:
      return 2;
    case Sym::C:
      break;
  }
}
struct T {
  Op op_;
  Op op() const { return op_; }
  int bad_member() const {
    if (op_ == Op::Sum)
      return 1;
    else if (op_ == Op::Adjoint)
      return 2;
    return 0;
  }
  int bad_getter() const {
    if (op() == Op::Sum)
      return 1;
    else if (op() == Op::Adjoint)
      return 2;
    return 0;
  }
};
int sib1(Sym s) {
  switch (s) { case Sym::A: return 1; case Sym::B: return 2; case Sym::C: throw std::logic_error("no"); }
  std::abort();
}
int sib2(Sym s) {
  switch (s) { case Sym::A: return 1; case Sym::B: return 2; default: throw std::logic_error("no"); }
}
int sib3(Sym s) {
  switch (s) { case Sym::A: return 1; case Sym::B: return 2; case Sym::C: fail(); }
  std::abort();
}
int sib4(Sym s) {
  switch (s) { case Sym::A: return 1; case Sym::B: return 2; case Sym::C: fail(); }
  std::abort();
}
enum class Vac { P, S, M };
int vac1(Vac s) {
  switch (s) { case Vac::P: return 1; case Vac::S: return 2; case Vac::M: throw std::logic_error("no"); }
  std::abort();
}
int vac2(Vac s) {
  switch (s) { case Vac::P: return 1; case Vac::S: return 2; default: throw std::logic_error("no"); }
}
int vac3(Vac s) {
  switch (s) { case Vac::P: return 1; case Vac::S: return 2; default: fail(); }
}
int bad_sibling(Vac s) {
  switch (s) { case Vac::P: return 1; case Vac::S: case Vac::M: return 2; }
  std::abort();
}

// ------------------------------------------------------------------ correct
int good_all(Op s) {
  switch (s) {
    case Op::Sum:
      return 1;
    case Op::Product:
      return 2;
    case Op::Adjoint:
    case Op::Power:
      return 3;
  }
  std::abort();
}
int good_default_error(Op s) {
  switch (s) {
    case Op::Sum:
      return 1;
    default:
      throw std::logic_error("not supported");
  }
}
int good_one_left(Op s) {
  switch (s) {
    case Op::Sum:
      return 1;
    case Op::Product:
    case Op::Adjoint:
      return 2;
    default:
      return 3;
  }
}
int good_after(Op s) {
  switch (s) {
    case Op::Sum:
      return 1;
    case Op::Product:
      return 2;
  }
  throw std::logic_error("unreachable");
}
int good_fallthrough(Op s) {
  int r = 0;
  switch (s) {
    case Op::Sum:
      r = 1;
      [[fallthrough]];
    case Op::Product:
      ++r;
      break;
    case Op::Adjoint:
    case Op::Power:
      break;
  }
  return r;
}
int good_chain(Op o) {
  if (o == Op::Sum) {
    return 1;
  } else if (o == Op::Product) {
    return 2;
  } else if (o == Op::Adjoint) {
    return 3;
  } else {
    return 4;
  }
}
int good_chain_error(Op o) {
  if (o == Op::Sum) return 1;
  if (o == Op::Product) return 2;
  fail();
}
int good_single(Op o) { return o == Op::Sum ? 1 : 0; }
int good_or(Op o) {
  if (o == Op::Sum || o == Op::Product) return 1;
  return 0;
}
int good_two_questions(Op o) {
  int r = 0;
  if (o == Op::Sum) r += 1;
  if (o == Op::Product) r += 2;
  return r;
}
int good_local_values() {
  auto pick = [](Op o) {
    if (o == Op::Sum)
      return 1;
    else if (o == Op::Product)
      return 2;
    else
      return 3;
  };
  int n = 0;
  for (auto o : {Op::Sum, Op::Product}) n += pick(o);
  return n + pick(Op::Adjoint);
}
struct V {
  explicit V(Op o) : o_(o) {}
  Op o() const { return o_; }

 private:
  Op o_;
};
int good_stored(const V& v) {
  if (v.o() == Op::Sum)
    return 1;
  else if (v.o() == Op::Product)
    return 2;
  else
    return 3;
}
int use_v() { return good_stored(V(Op::Sum)) + good_stored(V(Op::Product)) + good_stored(V(Op::Power)); }
int good_nested(Op a, Sym s) {
  switch (a) {
    case Op::Sum:
      switch (s) {
        case Sym::A:
          return 1;
        case Sym::B:
          return 2;
        case Sym::C:
          fail();
      }
      std::abort();
    case Op::Product:
      return 3;
    case Op::Adjoint:
    case Op::Power:
      return 4;
  }
  std::abort();
}
int good_break_in_scope(Op a) {
  int r = 0;
  while (r < 5) {
    switch (a) {
      case Op::Sum: {
        std::string x = "a";
        if (r) {
          r += x.size();
          break;
        }
        r = 7;
        break;
      }
      case Op::Product:
        r = 3;
        continue;
      case Op::Adjoint:
        return 4;
      case Op::Power:
        r = 9;
    }
  }
  return r;
}
int good_loop_end() {
  for (;;) {
    if (std::rand()) return 1;
  }
}
int good_try() {
  try {
    return 1;
  } catch (...) {
    throw;
  }
}
}  // namespace sequant
