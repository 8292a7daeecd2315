// Instantiates the header-only evaluation engine for analysis (never run).
#define SEQUANT_HAS_BTAS
#include <SeQuant/core/eval/backends/btas/eval_expr.hpp>
#undef SEQUANT_HAS_BTAS
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/eval/eval.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
#include <SeQuant/core/eval/result.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
#include <SeQuant/core/utility/memoize.hpp>

namespace sequant {
using Node = EvalNodeBTAS;
template class FullBinaryNode<EvalExprBTAS>;
template class ResultScalar<double>;
template class ResultScalar<std::complex<double>>;
template class CacheManager<Node, false>;
template struct TreeNodeEqualityComparator<Node>;

ResultPtr drive_eval(ResultExpr r, ResultPtr (*leafp)(Node const &)) {
  auto le = [leafp](auto const &n) -> ResultPtr { return leafp(n); };
  Node n = binarize<EvalExprBTAS>(r);
  std::vector<Node> ns{n};
  auto cm = cache_manager(ns);
  auto cm2 = cache_manager(
      ns, [](Node const &m) { return m.leaf(); }, 2,
      [](Node const &) { return 1.; }, 2.,
      [](Index const &) { return true; });
  cm.reset();
  cm.for_each_key([](Node const &) {});
  cm2.set_custom_evaluator(make_batched_custom_evaluator(
      le, [](Index const &) -> std::size_t { return 1; }));
  BatchPolicy bp;
  cm.set_custom_evaluator(make_evaluator(bp, le));
  auto x = evaluate<Trace::On>(n, le, cm);
  auto z = evaluate<Trace::Off>(n, le, cm2);
  auto y = evaluate<Trace::On>(ns, le, cm);
  (void)linearize_eval_node(n);
  (void)asy_cost(n);
  (void)min_storage(n);
  (void)asy_cost(n, FlopsWithSymm{});
  (void)asy_cost(n, Memory{});
  (void)to_expr(n);
  n.visit([](Node const &) {});
  n.visit_leaf([](Node const &) {});
  n.visit_internal([](Node const &) {});
  return x;
}
ResultPtr drive_eval2(std::vector<Node> ns, ResultPtr (*leafp)(Node const &)) {
  auto le = [leafp](auto const &n) -> ResultPtr { return leafp(n); };
  auto cm = cache_manager(ns);
  container::svector<long> l{0, 1};
  auto s = evaluate_symm<Trace::Off>(ns, l, le, cm);
  auto a = evaluate_antisymm<Trace::Off>(ns, l, le, cm);
  return s;
}
void drive_cse(std::vector<EvalNode<EvalExpr>> &v) {
  auto conv = [](auto const &e) { return binarize(e); };
  opt::eliminate_common_subexpressions(v, conv);
}
}  // namespace sequant
