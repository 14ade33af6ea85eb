#include "eigen_cases.hpp"
namespace hv
{
typedef eig::Case<hyperjet::DDScalar<1, double, 2>> A;
typedef eig::Case<hyperjet::DDScalar<2, double>> D;
PROPERTY(C16, elementwise_1, 1, "two or more entries", 300) { A(src, ctx).elementwise(); }
PROPERTY(C16, mixed_1, 1, "two or more entries", 300) { A(src, ctx).mixed(); }
PROPERTY(C16, reductions_1, 1, "two or more entries", 300) { A(src, ctx).reductions(); }
PROPERTY(C16, products_1, 1, "all", 400) { A(src, ctx).products(); }
PROPERTY(C16, solve_1, 1, "all", 400) { A(src, ctx).solve(); }
PROPERTY(C16, elementwise_d, 1, "two or more entries", 300) { D(src, ctx).elementwise(); }
PROPERTY(C16, functions_d, 1, "two or more entries", 300) { D(src, ctx).functions(); }
PROPERTY(C16, mixed_d, 1, "two or more entries", 300) { D(src, ctx).mixed(); }
PROPERTY(C16, reductions_d, 1, "two or more entries", 300) { D(src, ctx).reductions(); }
} // namespace hv
