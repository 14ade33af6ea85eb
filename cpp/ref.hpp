// Reference model: second order forward differentiation in quadruple precision
// with a running bound of the rounding error that an implementation in the
// scalar type of the library may have. It shares no code or layout with the
// library (dense symmetric matrices, closed forms of the derivatives that are
// validated against finite differences of the plain function, see selftest()).
#pragma once
#include "backend.hpp"
#include <functional>
#include <string>
#include <vector>

namespace ref
{
typedef __float128 Q;
constexpr double K = 1024; // slack on the rounding unit

struct J
{
    int n = 0, order = 2;
    Q f = 0;
    std::vector<Q> g, H; // H dense n*n
    double ef = 0;
    std::vector<double> eg, eH;
    J() = default;
    J(int n_, int order_) : n(n_), order(order_), g(n_, 0), H(order_ == 2 ? n_ * n_ : 0, 0), eg(n_, 0), eH(order_ == 2 ? n_ * n_ : 0, 0) {}
    Q h(int i, int j) const { return H[i * n + j]; }
};

// packed data f, g0.., h00, h01, .., h0n, h11, .. -> jet
J from_data(const hv::Vec &data, int n, int order);
J constant(double f, int n, int order);
hv::Vec pack(const J &j);

// derivatives of a function of one variable up to third order at x and the
// magnitudes that govern the rounding error of the first three
struct D1
{
    Q d[4];
    Q extra[3];
};
bool in_domain(hv::U op, Q x); // twice differentiable at x
D1 d1(hv::U op, Q x);
D1 d1_pow(Q x, Q b);
D1 d1_log(Q x, Q base);
Q value(hv::U op, Q x);

J un(hv::U op, const J &a, double eps);
J pow(const J &a, double b, double eps);
J log_base(const J &a, double base, double eps);
J bin(hv::B op, const J &a, const J &b, double eps);
J hypot3(const J &a, const J &b, const J &c, double eps);
J bin_ds(hv::B op, const J &a, double s, double eps);
J bin_sd(hv::B op, double s, const J &a, double eps);
bool bin_domain(hv::B op, Q a, Q b);

// second order Taylor polynomial at step d, with bound of the rounding error
struct Val
{
    Q v;
    double e;
};
Val eval(const J &a, const hv::Vec &d, double eps);

// "" if the packed data agrees with the reference, else a description
std::string compare(const J &r, const hv::Vec &data, double floor_abs = 1e-290, double cap = 1e290);
// largest error bound relative to the size of the jet; meaningless case if large
bool usable(const J &r, double rel = 1e-5);

std::string str(Q x);
std::string str(double x);
std::string str(const hv::Vec &v);

// validates the closed forms against finite differences; "" if fine
std::string selftest();
} // namespace ref
