// Instantiates the header-only code generators for analysis (never run).
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/export/export.hpp>
#include <SeQuant/core/export/export_expr.hpp>
#include <SeQuant/core/export/export_node.hpp>
#include <SeQuant/core/export/expression_group.hpp>
#include <SeQuant/core/export/generation_optimizer.hpp>
#include <SeQuant/core/export/itf.hpp>
#include <SeQuant/core/export/julia_itensor.hpp>
#include <SeQuant/core/export/julia_tensor_kit.hpp>
#include <SeQuant/core/export/julia_tensor_operations.hpp>
#include <SeQuant/core/export/python_einsum.hpp>
#include <SeQuant/core/export/reordering_context.hpp>
#include <SeQuant/core/export/text_generator.hpp>

namespace sequant {
template class ItfGenerator<ItfContext>;
template class TextGenerator<TextGeneratorContext>;
template class JuliaTensorOperationsGenerator<
    JuliaTensorOperationsGeneratorContext>;
template class JuliaITensorGenerator<JuliaITensorGeneratorContext>;
template class JuliaTensorKitGenerator<JuliaTensorKitGeneratorContext>;
template class PythonEinsumGeneratorBase<NumPyEinsumGeneratorContext>;
template class PythonEinsumGeneratorBase<PyTorchEinsumGeneratorContext>;
template class GenerationOptimizer<TextGenerator<TextGeneratorContext>>;
template class GenerationOptimizer<ItfGenerator<ItfContext>>;
template class ExpressionGroup<ExportExpr>;

template <typename G, typename C, typename... A>
void drive(ExprPtr e, ResultExpr r) {
  G gen{A{}...};
  C ctx;
  export_expression<ExportExpr>(to_export_tree(r), gen, C{});
  export_expression<ExportExpr>(to_export_tree(e), gen, ctx);
  container::svector<ExpressionGroup<ExportExpr>> gs;
  gs.emplace_back(to_export_tree(r), "n");
  export_groups<ExportExpr>(gs, gen, ctx);
}
void drive_all(ExprPtr e, ResultExpr r) {
  drive<TextGenerator<TextGeneratorContext>, TextGeneratorContext>(e, r);
  drive<ItfGenerator<ItfContext>, ItfContext>(e, r);
  drive<GenerationOptimizer<TextGenerator<TextGeneratorContext>>,
        TextGeneratorContext, TextGenerator<TextGeneratorContext>>(e, r);
  drive<JuliaITensorGenerator<JuliaITensorGeneratorContext>,
        JuliaITensorGeneratorContext>(e, r);
  drive<NumPyEinsumGenerator,
        NumPyEinsumGeneratorContext>(e, r);
}
}  // namespace sequant
