#include "ref.hpp"
#include <quadmath.h>
#include <cmath>
#include <cstdio>
#include <stdexcept>

namespace ref
{
using namespace hv;

static inline double mag(Q x) { return double(x < 0 ? -x : x); }
static inline Q qabs(Q x) { return x < 0 ? -x : x; }

J from_data(const Vec &data, int n, int order)
{
    J r(n, order);
    const std::size_t want = order == 1 ? 1 + n : std::size_t(n + 1) * (n + 2) / 2;
    if (data.size() != want)
        throw std::logic_error("ref: data length");
    std::size_t k = 0;
    r.f = data[k++];
    for (int i = 0; i < n; i++)
        r.g[i] = data[k++];
    if (order == 2)
        for (int i = 0; i < n; i++)
            for (int j = i; j < n; j++)
            {
                r.H[i * n + j] = data[k];
                r.H[j * n + i] = data[k];
                k++;
            }
    return r;
}
J constant(double f, int n, int order)
{
    J r(n, order);
    r.f = f;
    return r;
}
Vec pack(const J &j)
{
    Vec r{double(j.f)};
    for (Q x : j.g)
        r.push_back(double(x));
    if (j.order == 2)
        for (int i = 0; i < j.n; i++)
            for (int k = i; k < j.n; k++)
                r.push_back(double(j.h(i, k)));
    return r;
}

Q value(U op, Q x)
{
    switch (op)
    {
    case NEG: return -x;
    case RECIP: return 1 / x;
    case SQRT: return sqrtq(x);
    case CBRT: return cbrtq(x);
    case COS: return cosq(x);
    case SIN: return sinq(x);
    case TAN: return tanq(x);
    case ACOS: return acosq(x);
    case ASIN: return asinq(x);
    case ATAN: return atanq(x);
    case COSH: return coshq(x);
    case SINH: return sinhq(x);
    case TANH: return tanhq(x);
    case ACOSH: return acoshq(x);
    case ASINH: return asinhq(x);
    case ATANH: return atanhq(x);
    case EXP: return expq(x);
    case LOG: return logq(x);
    case LOG2: return log2q(x);
    case LOG10: return log10q(x);
    case ABS: return qabs(x);
    default: throw std::logic_error("ref: value");
    }
}

bool in_domain(U op, Q x)
{
    if (!(qabs(x) < 1e200Q))
        return false;
    switch (op)
    {
    case RECIP: case CBRT: return x != 0;
    case SQRT: case LOG: case LOG2: case LOG10: return x > 0;
    case ACOS: case ASIN: case ATANH: return qabs(x) < 1;
    case ACOSH: return x > 1;
    case COSH: case SINH: case EXP: return qabs(x) < 600;
    default: return true;
    }
}

D1 d1(U op, Q x)
{
    D1 r{};
    Q *d = r.d;
    d[0] = value(op, x);
    const Q v = d[0];
    switch (op)
    {
    case NEG: d[1] = -1; break;
    case RECIP: d[1] = -v * v; d[2] = 2 * v * v * v; d[3] = -6 * v * v * v * v; break;
    case SQRT: d[1] = 1 / (2 * v); d[2] = -1 / (4 * v * x); d[3] = 3 / (8 * v * x * x); break;
    case CBRT: d[1] = v / (3 * x); d[2] = -2 * v / (9 * x * x); d[3] = 10 * v / (27 * x * x * x); break;
    case COS: { Q s = sinq(x); d[1] = -s; d[2] = -v; d[3] = s; break; }
    case SIN: { Q c = cosq(x); d[1] = c; d[2] = -v; d[3] = -c; break; }
    case TAN: d[1] = 1 + v * v; d[2] = 2 * v * d[1]; d[3] = 2 * d[1] * (1 + 3 * v * v); break;
    case ACOS: case ASIN:
    {
        const Q q = (1 - x) * (1 + x), s = sqrtq(q), z = op == ACOS ? Q(-1) : Q(1);
        d[1] = z / s; d[2] = z * x / (q * s); d[3] = z * (1 + 2 * x * x) / (q * q * s);
        break;
    }
    case ATAN: { const Q q = 1 + x * x; d[1] = 1 / q; d[2] = -2 * x / (q * q); d[3] = (6 * x * x - 2) / (q * q * q); break; }
    case COSH: { Q s = sinhq(x); d[1] = s; d[2] = v; d[3] = s; break; }
    case SINH: { Q c = coshq(x); d[1] = c; d[2] = v; d[3] = c; break; }
    case TANH:
    {
        const Q c = coshq(x > 2000 ? Q(2000) : x < -2000 ? Q(-2000) : x);
        d[1] = 1 / (c * c); d[2] = -2 * v * d[1]; d[3] = d[1] * (6 * v * v - 2);
        r.extra[1] = 1; r.extra[2] = 2;
        break;
    }
    case ACOSH: { const Q q = (x - 1) * (x + 1), s = sqrtq(q); d[1] = 1 / s; d[2] = -x / (q * s); d[3] = (2 * x * x + 1) / (q * q * s); break; }
    case ASINH: { const Q q = 1 + x * x, s = sqrtq(q); d[1] = 1 / s; d[2] = -x / (q * s); d[3] = (2 * x * x - 1) / (q * q * s); break; }
    case ATANH: { const Q q = (1 - x) * (1 + x); d[1] = 1 / q; d[2] = 2 * x / (q * q); d[3] = (2 + 6 * x * x) / (q * q * q); break; }
    case EXP: d[1] = d[2] = d[3] = v; break;
    case LOG: case LOG2: case LOG10:
    {
        const Q c = op == LOG ? Q(1) : op == LOG2 ? 1 / logq(2) : 1 / logq(10);
        d[1] = c / x; d[2] = -c / (x * x); d[3] = 2 * c / (x * x * x);
        break;
    }
    case ABS: d[1] = x < 0 ? -1 : 1; break;
    default: throw std::logic_error("ref: d1");
    }
    return r;
}
D1 d1_pow(Q x, Q b)
{
    D1 r{};
    Q c = 1;
    for (int k = 0; k < 4; k++)
    {
        r.d[k] = c == 0 ? Q(0) : c * powq(x, b - k);
        c *= b - k;
    }
    return r;
}
D1 d1_log(Q x, Q base)
{
    D1 r{};
    const Q c = 1 / logq(base);
    r.d[0] = logq(x) * c;
    r.d[1] = c / x;
    r.d[2] = -c / (x * x);
    r.d[3] = 2 * c / (x * x * x);
    return r;
}

// general function of m arguments
struct Part
{
    int m;
    Q f, p[3], pp[3][3];
    double sf, sp[3], spp[3][3]; // absolute error bounds
};
static J apply(const Part &t, const J *const *a, double eps)
{
    const int n = a[0]->n, order = a[0]->order;
    J r(n, order);
    const double ke = K * eps;
    r.f = t.f;
    r.ef = t.sf;
    // error of a product of two factors known up to ea and eb, and rounded itself
    auto prod = [&](double a, double ea, double b, double eb) { return a * eb + ea * (b + eb) + ke * (a + ea) * (b + eb); };
    for (int i = 0; i < n; i++)
    {
        Q s = 0;
        double e = 0;
        for (int k = 0; k < t.m; k++)
        {
            s += t.p[k] * a[k]->g[i];
            e += prod(mag(t.p[k]), t.sp[k], mag(a[k]->g[i]), a[k]->eg[i]);
        }
        r.g[i] = s;
        r.eg[i] = e;
    }
    if (order == 2)
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
            {
                Q s = 0;
                double e = 0;
                for (int k = 0; k < t.m; k++)
                {
                    const Q x = a[k]->H[i * n + j];
                    s += t.p[k] * x;
                    e += prod(mag(t.p[k]), t.sp[k], mag(x), a[k]->eH[i * n + j]);
                    for (int l = 0; l < t.m; l++)
                    {
                        const Q gg = a[k]->g[i] * a[l]->g[j];
                        s += t.pp[k][l] * gg;
                        if (t.pp[k][l] != 0 || t.spp[k][l] != 0)
                            e += prod(mag(t.pp[k][l]), t.spp[k][l], mag(gg), prod(mag(a[k]->g[i]), a[k]->eg[i], mag(a[l]->g[j]), a[l]->eg[j]));
                    }
                }
                r.H[i * n + j] = s;
                r.eH[i * n + j] = e;
            }
    return r;
}
static J apply1(const D1 &d, const J &a, double eps)
{
    const double ke = K * eps;
    const double x = mag(a.f);
    Part t{};
    t.m = 1;
    t.f = d.d[0];
    t.p[0] = d.d[1];
    t.pp[0][0] = d.d[2];
    auto s = [&](int k) {
        const double cond = x * mag(d.d[k + 1]);
        double r = ke * (mag(d.d[k]) + (std::isnan(cond) ? 0 : cond) + mag(d.extra[k]));
        double w = 1; // Taylor series in the error of the argument
        if (a.ef > 0)
            for (int l = k + 1; l < 4; l++)
            {
                w *= a.ef / (l - k);
                r += mag(d.d[l]) * w;
            }
        return r;
    };
    t.sf = s(0);
    t.sp[0] = s(1);
    t.spp[0][0] = s(2);
    const J *p[] = {&a};
    return apply(t, p, eps);
}
J un(U op, const J &a, double eps) { return apply1(d1(op, a.f), a, eps); }
J pow(const J &a, double b, double eps) { return apply1(d1_pow(a.f, b), a, eps); }
J log_base(const J &a, double base, double eps)
{
    D1 d = d1_log(a.f, base);
    return apply1(d, a, eps);
}

bool bin_domain(B op, Q a, Q b)
{
    switch (op)
    {
    case DIV: return b != 0;
    case ATAN2: case HYPOT: return a != 0 || b != 0;
    default: return true;
    }
}

J bin(B op, const J &a, const J &b, double eps)
{
    const double ke = K * eps;
    const Q x = a.f, y = b.f;
    Part t{};
    t.m = 2;
    double m0 = 0, m1[2] = {0, 0}, m2 = 0, m3 = 0; // magnitudes; m2, m3: bounds of second and third partials
    switch (op)
    {
    case ADD: t.f = x + y; t.p[0] = 1; t.p[1] = 1; m0 = mag(x) + mag(y); break;
    case SUB: t.f = x - y; t.p[0] = 1; t.p[1] = -1; m0 = mag(x) + mag(y); break;
    case MUL:
        t.f = x * y; t.p[0] = y; t.p[1] = x; t.pp[0][1] = t.pp[1][0] = 1;
        break;
    case DIV:
        t.f = x / y; t.p[0] = 1 / y; t.p[1] = -x / (y * y);
        t.pp[0][1] = t.pp[1][0] = -1 / (y * y); t.pp[1][1] = 2 * x / (y * y * y);
        m3 = mag(2 / (y * y * y)) + mag(6 * x / (y * y * y * y));
        break;
    case ATAN2:
    {
        const Q r2 = x * x + y * y;
        t.f = atan2q(x, y);
        t.p[0] = y / r2; t.p[1] = -x / r2;
        t.pp[0][0] = -2 * x * y / (r2 * r2); t.pp[1][1] = 2 * x * y / (r2 * r2);
        t.pp[0][1] = t.pp[1][0] = (x * x - y * y) / (r2 * r2);
        m2 = mag(1 / r2); m3 = mag(2 / (r2 * sqrtq(r2)));
        break;
    }
    case HYPOT:
    {
        const Q f = sqrtq(x * x + y * y);
        t.f = f;
        t.p[0] = x / f; t.p[1] = y / f;
        t.pp[0][0] = y * y / (f * f * f); t.pp[1][1] = x * x / (f * f * f);
        t.pp[0][1] = t.pp[1][0] = -x * y / (f * f * f);
        m3 = mag(6 / (f * f));
        break;
    }
    default: throw std::logic_error("ref: bin");
    }
    const double e[2] = {a.ef, b.ef};
    t.sf = ke * (mag(t.f) + m0);
    for (int k = 0; k < 2; k++)
    {
        t.sf += mag(t.p[k]) * e[k];
        t.sp[k] = ke * (mag(t.p[k]) + m1[k]);
        for (int l = 0; l < 2; l++)
        {
            t.sf += mag(t.pp[k][l]) * e[k] * e[l];
            t.sp[k] += mag(t.pp[k][l]) * e[l] + m3 * e[k] * e[l];
            t.spp[k][l] = (t.pp[k][l] == 0 && m2 == 0 ? 0 : ke * (mag(t.pp[k][l]) + m2)) + m3 * (e[0] + e[1]);
        }
    }
    const J *p[] = {&a, &b};
    return apply(t, p, eps);
}
J hypot3(const J &a, const J &b, const J &c, double eps)
{
    const double ke = K * eps;
    const Q x[3] = {a.f, b.f, c.f};
    const Q f = sqrtq(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
    const double e = a.ef + b.ef + c.ef, m3 = mag(6 / (f * f));
    Part t{};
    t.m = 3;
    t.f = f;
    t.sf = ke * mag(f) + e;
    for (int k = 0; k < 3; k++)
    {
        t.p[k] = x[k] / f;
        t.sp[k] = ke * mag(t.p[k]) + mag(1 / f) * 2 * e;
        for (int l = 0; l < 3; l++)
        {
            // -x_k x_l / f^3 off the diagonal, (f^2 - x_k^2) / f^3 on it
            if (k == l)
            {
                Q s = 0;
                for (int m = 0; m < 3; m++)
                    if (m != k)
                        s += x[m] * x[m];
                t.pp[k][l] = s / (f * f * f);
            }
            else
                t.pp[k][l] = -x[k] * x[l] / (f * f * f);
            t.spp[k][l] = ke * (mag(t.pp[k][l])) + m3 * e;
        }
    }
    const J *p[] = {&a, &b, &c};
    return apply(t, p, eps);
}
J bin_ds(B op, const J &a, double s, double eps) { return bin(op, a, constant(s, a.n, a.order), eps); }
J bin_sd(B op, double s, const J &a, double eps) { return bin(op, constant(s, a.n, a.order), a, eps); }

Val eval(const J &a, const Vec &d, double eps)
{
    Val r{a.f, a.ef};
    double m = mag(a.f);
    for (int i = 0; i < a.n; i++)
    {
        r.v += a.g[i] * d[i];
        m += mag(a.g[i] * d[i]);
    }
    if (a.order == 2)
        for (int i = 0; i < a.n; i++)
            for (int j = 0; j < a.n; j++)
            {
                const Q t = a.h(i, j) * d[i] * d[j] / 2;
                r.v += t;
                m += mag(t);
            }
    r.e += K * eps * m * (1 + a.n * 0.05);
    return r;
}

std::string str(Q x)
{
    char b[64];
    quadmath_snprintf(b, sizeof b, "%.20Qg", x);
    return b;
}
std::string str(double x)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
std::string str(const Vec &v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); i++)
        r += (i ? ", " : "") + str(v[i]);
    return r + "]";
}

std::string compare(const J &r, const Vec &data, double floor_abs, double cap)
{
    const std::size_t want = r.order == 1 ? 1 + r.n : std::size_t(r.n + 1) * (r.n + 2) / 2;
    if (data.size() != want)
        return "result stores " + std::to_string(data.size()) + " numbers, " + std::to_string(want) + " expected";
    auto chk = [&](const char *what, int i, int j, Q ref, double e, double act) -> std::string {
        const double lim = e + floor_abs;
        if (!(mag(ref) < cap) || !(lim < cap))
            return ""; // not representable: no claim
        const Q diff = qabs(Q(act) - ref);
        if (diff <= lim) // false for nan
            return "";
        std::string p = what;
        if (i >= 0)
            p += "[" + std::to_string(i) + (j >= 0 ? "," + std::to_string(j) : "") + "]";
        return p + " = " + str(act) + ", expected " + str(ref) + " +- " + str(lim);
    };
    std::size_t k = 0;
    std::string s = chk("f", -1, -1, r.f, r.ef, data[k++]);
    for (int i = 0; i < r.n && s.empty(); i++)
        s = chk("g", i, -1, r.g[i], r.eg[i], data[k++]);
    if (r.order == 2)
        for (int i = 0; i < r.n && s.empty(); i++)
            for (int j = i; j < r.n && s.empty(); j++)
                s = chk("H", i, j, r.h(i, j), r.eH[i * r.n + j], data[k++]);
    return s;
}
bool usable(const J &r, double rel)
{
    double m = mag(r.f), e = r.ef;
    if (!(m < 1e100) || !(e <= rel * (1 + m)))
        return false;
    m = 0;
    e = 0;
    for (int i = 0; i < r.n; i++)
    {
        m = std::max(m, mag(r.g[i]));
        e = std::max(e, r.eg[i]);
    }
    if (!(m < 1e100) || !(e <= rel * (1 + m)))
        return false;
    m = 0;
    e = 0;
    for (std::size_t i = 0; i < r.H.size(); i++)
    {
        m = std::max(m, mag(r.H[i]));
        e = std::max(e, r.eH[i]);
    }
    return m < 1e100 && e <= rel * (1 + m);
}

// --- self test: central differences of the plain functions in quad precision

static std::string fd_check(const std::string &what, const std::function<Q(const Q *)> &fn, int m, const Q *x, const Part &t)
{
    const Q base = 1e-9Q;
    auto at = [&](int k, Q hk, int l, Q hl) {
        Q y[3] = {x[0], m > 1 ? x[1] : Q(0), m > 2 ? x[2] : Q(0)};
        y[k] += hk;
        if (l >= 0)
            y[l] += hl;
        return fn(y);
    };
    Q sc = 0;
    for (int k = 0; k < m; k++)
        for (int l = 0; l < m; l++)
            sc = fmaxq(sc, qabs(t.pp[k][l]));
    for (int k = 0; k < m; k++)
    {
        const Q h = base * (1 + 0 * qabs(x[k]));
        const Q fp = (at(k, h, -1, 0) - at(k, -h, -1, 0)) / (2 * h);
        if (!(qabs(fp - t.p[k]) <= 1e-12Q * (1 + qabs(t.p[k]) + sc)))
            return what + ": first partial " + str(t.p[k]) + " but difference quotient " + str(fp) + " at " + str(x[0]) + " " + str(m > 1 ? x[1] : Q(0));
        for (int l = 0; l < m; l++)
        {
            Q f2;
            if (k == l)
                f2 = (at(k, h, -1, 0) - 2 * t.f + at(k, -h, -1, 0)) / (h * h);
            else
                f2 = (at(k, h, l, h) - at(k, h, l, -h) - at(k, -h, l, h) + at(k, -h, l, -h)) / (4 * h * h);
            if (!(qabs(f2 - t.pp[k][l]) <= 1e-9Q * (1 + sc + qabs(t.p[k]) + qabs(t.f))))
                return what + ": second partial " + str(t.pp[k][l]) + " but difference quotient " + str(f2) + " at " + str(x[0]) + " " + str(m > 1 ? x[1] : Q(0));
        }
    }
    return "";
}

std::string selftest()
{
    unsigned long long st = 88172645463325252ULL;
    auto rnd = [&]() {
        st ^= st << 13;
        st ^= st >> 7;
        st ^= st << 17;
        return double(st >> 11) / 9007199254740992.0;
    };
    for (int round = 0; round < 40; round++)
    {
        for (int o = 0; o < U_COUNT; o++)
        {
            const U op = U(o);
            Q x;
            const double u = rnd();
            switch (op)
            {
            case ACOS: case ASIN: case ATANH: x = -0.95 + 1.9 * u; break;
            case ACOSH: x = 1.05 + 4 * u; break;
            case SQRT: case LOG: case LOG2: case LOG10: x = 0.05 + 5 * u; break;
            default: x = -3 + 6 * u;
            }
            if (qabs(x) < 0.05Q || (op == TAN && qabs(cosq(x)) < 0.1Q))
                continue;
            const D1 d = d1(op, x);
            Part t{};
            t.m = 1; t.f = d.d[0]; t.p[0] = d.d[1]; t.pp[0][0] = d.d[2];
            std::string s = fd_check(U_NAME[op], [&](const Q *y) { return value(op, y[0]); }, 1, &x, t);
            if (!s.empty())
                return s;
            // third derivative from the second by one more difference
            const Q h = 1e-10Q, d3 = (d1(op, x + h).d[2] - d1(op, x - h).d[2]) / (2 * h);
            if (!(qabs(d3 - d.d[3]) <= 1e-9Q * (1 + qabs(d3))))
                return std::string(U_NAME[op]) + ": third derivative";
        }
        const Q xx[3] = {-2 + 4 * rnd(), -2 + 4 * rnd(), -2 + 4 * rnd()};
        const double b = -4 + 8 * rnd();
        {
            const Q x = 0.1 + 3 * rnd();
            D1 d = d1_pow(x, b);
            Part t{};
            t.m = 1; t.f = d.d[0]; t.p[0] = d.d[1]; t.pp[0][0] = d.d[2];
            std::string s = fd_check("pow", [&](const Q *y) { return powq(y[0], b); }, 1, &x, t);
            if (!s.empty())
                return s;
            const double base = 0.1 + 0.8 * rnd();
            d = d1_log(x, base);
            t.f = d.d[0]; t.p[0] = d.d[1]; t.pp[0][0] = d.d[2];
            s = fd_check("log(base)", [&](const Q *y) { return logq(y[0]) / logq(base); }, 1, &x, t);
            if (!s.empty())
                return s;
        }
        if (qabs(xx[0]) < 0.1Q || qabs(xx[1]) < 0.1Q || qabs(xx[2]) < 0.1Q)
            continue;
        // the partials of functions of several arguments, read off the reference itself
        auto unit = [&](int m, int k) {
            J j(m, 2);
            j.f = xx[k];
            j.g[k] = 1;
            return j;
        };
        auto part = [&](const J &j, int m) {
            Part t{};
            t.m = m; t.f = j.f;
            for (int k = 0; k < m; k++)
            {
                t.p[k] = j.g[k];
                for (int l = 0; l < m; l++)
                    t.pp[k][l] = j.h(k, l);
            }
            return t;
        };
        for (int o = 0; o < B_COUNT; o++)
        {
            const B op = B(o);
            auto fn = [&](const Q *y) -> Q {
                switch (op)
                {
                case ADD: return y[0] + y[1];
                case SUB: return y[0] - y[1];
                case MUL: return y[0] * y[1];
                case DIV: return y[0] / y[1];
                case ATAN2: return atan2q(y[0], y[1]);
                default: return hypotq(y[0], y[1]);
                }
            };
            std::string s = fd_check(B_NAME[op], fn, 2, xx, part(bin(op, unit(2, 0), unit(2, 1), 0), 2));
            if (!s.empty())
                return s;
        }
        std::string s = fd_check("hypot3", [&](const Q *y) { return sqrtq(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]); }, 3, xx, part(hypot3(unit(3, 0), unit(3, 1), unit(3, 2), 0), 3));
        if (!s.empty())
            return s;
    }
    return "";
}
} // namespace ref
