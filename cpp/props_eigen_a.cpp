#include "eigen_cases.hpp"
namespace hv
{
typedef eig::Case<hyperjet::DDScalar<2, double, 3>> A;
PROPERTY(C16, elementwise, 3, "two or more entries", 300) { A(src, ctx).elementwise(); }
PROPERTY(C16, functions, 2, "two or more entries", 300) { A(src, ctx).functions(); }
PROPERTY(C16, mixed, 3, "two or more entries", 300) { A(src, ctx).mixed(); }
PROPERTY(C16, reductions, 3, "two or more entries", 300) { A(src, ctx).reductions(); }
PROPERTY(C16, products, 3, "all", 400) { A(src, ctx).products(); }
PROPERTY(C16, solve, 2, "all", 400) { A(src, ctx).solve(); }
} // namespace hv
