// C interface of the reference model, for the checks of the Python bindings
#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>

using namespace ref;
#define API extern "C" __attribute__((visibility("default")))
typedef const J *H;
static double EPS = 1.2e-16;
static std::string text;

API void r_set_eps(double e) { EPS = e; }
API void r_free(void *p) { delete static_cast<J *>(p); }
API void *r_from(const double *d, int n, int order)
{
    const std::size_t len = order == 1 ? 1 + n : std::size_t(n + 1) * (n + 2) / 2;
    return new J(from_data(hv::Vec(d, d + len), n, order));
}
API void *r_constant(double f, int n, int order) { return new J(constant(f, n, order)); }
API void *r_un(int op, H a) { return new J(un(hv::U(op), *a, EPS)); }
API void *r_pow(H a, double b) { return new J(pow(*a, b, EPS)); }
API void *r_log_base(H a, double b) { return new J(log_base(*a, b, EPS)); }
API void *r_bin(int op, H a, H b) { return new J(bin(hv::B(op), *a, *b, EPS)); }
API void *r_hypot3(H a, H b, H c) { return new J(hypot3(*a, *b, *c, EPS)); }
API void *r_bin_ds(int op, H a, double s) { return new J(bin_ds(hv::B(op), *a, s, EPS)); }
API void *r_bin_sd(int op, double s, H a) { return new J(bin_sd(hv::B(op), s, *a, EPS)); }
API double r_f(H a) { return double(a->f); }
API double r_g(H a, int i) { return double(a->g[i]); }
API double r_eg(H a, int i) { return a->eg[i]; }
API double r_ef(H a) { return a->ef; }
API int r_in_domain(int op, double x) { return in_domain(hv::U(op), x); }
API int r_bin_domain(int op, double a, double b) { return bin_domain(hv::B(op), a, b); }
API int r_usable(H a, double rel) { return usable(*a, rel); }
API double r_max(H a)
{
    double m = std::fabs(double(a->f));
    for (auto &g : a->g)
        m = std::max(m, std::fabs(double(g)));
    for (auto &h : a->H)
        m = std::max(m, std::fabs(double(h)));
    return m;
}
API const char *r_compare(H a, const double *d, int len)
{
    text = compare(*a, hv::Vec(d, d + len));
    return text.c_str();
}
API void r_eval(H a, const double *d, double *v, double *e)
{
    const Val r = eval(*a, hv::Vec(d, d + a->n), EPS);
    *v = double(r.v);
    *e = r.e;
}
API const char *r_selftest()
{
    text = selftest();
    return text.c_str();
}
