#include "eigen_cases.hpp"
namespace hv
{
typedef eig::Case<hyperjet::DDScalar<2, float, 2>> A;
PROPERTY(C16, elementwise_f, 1, "two or more entries", 300) { A(src, ctx).elementwise(); }
PROPERTY(C16, mixed_f, 1, "two or more entries", 300) { A(src, ctx).mixed(); }
PROPERTY(C16, reductions_f, 1, "two or more entries", 300) { A(src, ctx).reductions(); }
PROPERTY(C16, products_f, 1, "all", 400) { A(src, ctx).products(); }
PROPERTY(C16, solve_f, 1, "all", 400) { A(src, ctx).solve(); }
} // namespace hv
