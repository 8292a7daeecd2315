// Instantiates members of class templates that nothing in the library uses, so that they are analysed too (never run).
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/hugenholtz.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/core/utility/strong.hpp>
#include <SeQuant/core/utility/tensor.hpp>
#include <SeQuant/core/tag.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/io/latex/latex.hpp>
#include <SeQuant/core/tensor_network/v1.hpp>
#include <SeQuant/core/tensor_network/v2.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/wick.hpp>
#include <SeQuant/domain/mbpt/op.hpp>

namespace sequant {
template class Op<Statistics::FermiDirac>;
template class NormalOperator<Statistics::FermiDirac>;
template class HugenholtzVertex<Op<Statistics::FermiDirac>, Op<Statistics::FermiDirac>::TypeEquality>;
template struct IndexGroups<container::svector<Index>>;
template class mbpt::QuantumNumberChange<>;
template class mbpt::Operator<mbpt::qns_t, Statistics::FermiDirac>;
template class mbpt::OpMaker<Statistics::FermiDirac>;

using FNop = NormalOperator<Statistics::FermiDirac>;

void drive_inst(ExprPtr e, Index i, Index j, IndexSpaceRegistry r, IndexSpace s, IndexSpace t, Product p, Sum sum,
                std::vector<ExprPtr> v, Tensor t1, Tensor t2, ResultExpr re) {
  (void)bcrex(i);
  (void)bannx(i);
  (void)fcrex(i);
  (void)fannx(i);
  (void)r.retrieve_ptr(L"i");
  r.add_intersection(L"x", {L"a", L"b"});
  r.remove(L"x");
  (void)r.valid_intersection(L"i", L"j");
  (void)r.intersection(L"i", L"j");
  (void)r.unIon(L"i", L"j");
  (void)r.valid_unIon(L"i", L"j");
  (void)r.is_base(L"i");
  (void)r.is_pure_occupied(L"i");
  (void)r.is_pure_unoccupied(L"i");
  (void)r.contains_occupied(L"i");
  (void)r.contains_unoccupied(L"i");
  p.append(2, *e);
  p.prepend(2, *e);
  (void)sum.filter([](const ExprPtr &) { return true; });
  (void)Power(L"x", 2);
  (void)serialize(e);
  (void)Index(L"a_1", {i, j});
  (void)Index(L"a_1", IndexList{i, j}, true);
  (void)to_rational(0.5);
  TensorNetworkV1 n1(v);
  TensorNetworkV2 n2(v);
  FNop a, b;
  auto it = e->begin();
  it -= 1;
  --it;
  (void)(it + 1);
  (void)(1 + it);
  (void)(it - 1);
  (void)(it < e->end());
  IndexGroups<container::svector<Index>> ga, gb;
  (void)(ga == gb);
  (void)(ga != gb);
  (void)get_uncontracted_indices(t1, t2);
  (void)TensorBlockLessThanComparator{}(*e, *e);
  (void)TensorBlockLessThanComparator{}(e, e);
  (void)TensorBlockEqualComparator{}(e, e);
  IndexSpecificTensorBlockEqualComparator ic({i});
  (void)ic(e, e);
  (void)ic.indices();
  IndexSpecificTensorBlockLessThanComparator il({i});
  (void)il(e, e);
  replace(e, e, e);
  replace(re, e, e);
  std::pair<Index, Index> pr{i, j};
  (void)get_bra_idx(pr);
  (void)get_ket_idx(pr);
  container::svector<Index> sv{i, j};
  (void)get_bra_idx(sv);
  (void)get_ket_idx(sv);
  (void)i.make_label_plus_suffix(std::wstring(L"x"));
  (void)i.make_label_minus_substring(std::wstring(L"x"));
  (void)Index::base_label(L"a");
  mbpt::qns_t q;
  (void)(q == q);
  (void)(q != q);
  Complex<rational> c(1), d(2);
  (void)(c == d);
  (void)(c != d);
  (void)(c == 1);
  (void)(1 == c);
  (void)(c != 1);
  (void)(+c);
  (void)(c + d);
  (void)(e + ex<Constant>(1));
  (void)(e - 1);
  (void)(1 - e);
  (void)(e * 2);
  (void)(2 * e);
  Op<Statistics::FermiDirac> o1, o2;
  (void)(o1 != o2);
  (void)Op<Statistics::FermiDirac>::TypeCompare{}(o1, o2);
  a.creann();
  bra<container::svector<Index>> bi(sv);
  (void)bi.at(0);
  (void)(bi > bi);
  NormalOperatorSequence<Statistics::FermiDirac> s1{a, b}, s2(s1);
  s2 = s1;
  s2.adjoint();
  Operator<Statistics::FermiDirac> op1, op2;
  op2 = op1;
  WickTheorem<Statistics::FermiDirac> w(e);
  w.set_nop_connections({{1, 2}});
  w.set_nop_avoided_connections({{1, 2}});
  w.set_nop_partitions({{1, 2}});
  w.set_op_partitions({{1, 2}});
  b = a;
  b = std::move(a);
}
}  // namespace sequant
