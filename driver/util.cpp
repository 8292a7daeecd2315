// Instantiates header-only utilities for analysis (never run).
#include <SeQuant/core/attr.hpp>
#include <SeQuant/core/binary_node.hpp>
#include <SeQuant/core/complex.hpp>
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/rational.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tag.hpp>
#include <SeQuant/core/utility/memoize.hpp>
#include <SeQuant/core/utility/permutation.hpp>
#include <SeQuant/core/utility/scope.hpp>
#include <SeQuant/core/utility/swap.hpp>
#include <SeQuant/core/utility/tensor.hpp>
#include <SeQuant/core/wick.hpp>
#include <SeQuant/domain/mbpt/op.hpp>

namespace sequant {
template class WickTheorem<Statistics::FermiDirac>;
template class Complex<rational>;
}
namespace sequant {
template <typename Cache>
void drive_memoize() {
  Cache cache;
  std::mutex m;
  std::condition_variable cv;
  if constexpr (requires { detail::memoize(cache, m, cv, 1, []() { return 1; }); })
    (void)detail::memoize(cache, m, cv, 1, []() { return 1; });
}
template void drive_memoize<std::map<int, std::optional<int>>>();
template void drive_memoize<std::unordered_map<int, std::optional<int>>>();
template void drive_memoize<container::map<int, std::optional<int>>>();
void drive_util(std::vector<int> v, Index a, Index b, ExprPtr e) {
  parallel_do([](int) {});
  sequant::for_each(v, [](int &) {});
  (void)transform_reduce(v, 0, std::plus<>{}, [](int x) { return x; });
  SwapCountableRef<int> x(v[0]), y(v[1]);
  using std::swap;
  swap(x, y);
  (void)permutation_parity(std::span<int>(v));
  (void)to_rational(0.5);
  (void)(e + e);
  (void)(e - e);
  (void)(e * e);
  detail::any_comparable ac(1);
  (void)detail::any_comparable_cast<int>(ac);
  container::svector<Index> ix{a, b};
  (void)bcre(a);
  (void)bann(a);
  (void)fcre(a);
  (void)fann(a);
  WickTheorem<Statistics::FermiDirac> w(e);
  w.set_external_indices(ix);
  w.set_nop_connections(std::vector<std::pair<int, int>>{{1, 2}});
  w.set_nop_avoided_connections(std::vector<std::pair<int, int>>{{1, 2}});
  w.set_nop_partitions(std::vector<std::vector<int>>{{1}});
  w.set_op_partitions(std::vector<std::vector<int>>{{1}});
}
}  // namespace sequant
