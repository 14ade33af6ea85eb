// C16: Eigen expressions of numbers against the scalar formulas in the reference arithmetic
#pragma once
#include "harness.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <hyperjet/hyperjet.h>
#include <algorithm>
#include <cmath>

namespace hv
{
namespace eig
{
struct RM // matrix of reference numbers
{
    int r = 0, c = 0;
    std::vector<ref::J> v;
    RM(int r_, int c_) : r(r_), c(c_), v(std::size_t(r_) * c_) {}
    ref::J &operator()(int i, int j) { return v[i * c + j]; }
    const ref::J &operator()(int i, int j) const { return v[i * c + j]; }
};

template <typename N>
struct Case
{
    typedef typename N::Scalar T;
    typedef Eigen::Matrix<N, Eigen::Dynamic, Eigen::Dynamic> M;
    typedef Eigen::Matrix<N, Eigen::Dynamic, 1> V;
    typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> MD;
    static constexpr bool fl = sizeof(T) == 4;
    static constexpr double eps = fl ? 6.0e-8 : 1.2e-16;
    Src &src;
    Ctx &ctx;
    int n; // variables

    Case(Src &s, Ctx &c) : src(s), ctx(c)
    {
        if constexpr (N::is_dynamic())
            n = int(s.range(1, 4));
        else
            n = int(N().size());
    }
    static Vec dump(const N &a) { return Vec(a.ptr(), a.ptr() + a.data_length()); }
    ref::J model(const N &a) { return ref::from_data(dump(a), n, int(N::order())); }
    RM model(const M &a)
    {
        RM m(int(a.rows()), int(a.cols()));
        for (int i = 0; i < m.r; i++)
            for (int j = 0; j < m.c; j++)
                m(i, j) = model(a(i, j));
        return m;
    }
    void check(const N &have, const ref::J &want, const std::string &what)
    {
        ctx.require(int(have.size()) == n, what + ": size " + std::to_string(have.size()));
        const std::string s = ref::compare(want, dump(have), fl ? 1e-30 : 1e-280, fl ? 1e30 : 1e290);
        if (!s.empty())
            ctx.fail(what + ": " + s);
    }
    void check(const M &have, const RM &want, const std::string &what)
    {
        ctx.require(have.rows() == want.r && have.cols() == want.c, what + ": shape");
        for (int i = 0; i < want.r; i++)
            for (int j = 0; j < want.c; j++)
                check(have(i, j), want(i, j), what + " (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
    double value() { return src.chance(30) ? double(float(gen_small(src))) : double(src.range(0, 60) - 20) / 8; }
    N number(double f)
    {
        N a;
        if constexpr (N::is_dynamic())
            a = N::constant(T(f), n);
        else
            a = N::constant(T(f));
        const int kind = int(src.range(0, 3));
        if (kind == 0)
            a.g(src.range(0, n - 1)) = 1;
        else if (kind == 1)
        {
            uint64_t x = src.raw() * 6364136223846793005ULL + 1442695040888963407ULL;
            for (hyperjet::index i = 1; i < a.data_length(); i++)
            {
                x = x * 6364136223846793005ULL + 1442695040888963407ULL;
                a.ptr()[i] = T((double((x >> 40) % 65) - 32) / 8);
            }
        }
        else if (kind == 2)
            for (hyperjet::index i = 1; i < a.data_length(); i++)
                a.ptr()[i] = T(double(src.range(0, 32) - 16) / 8);
        return a;
    }
    M matrix(int r, int c)
    {
        M m(r, c);
        std::string s = "[";
        for (int i = 0; i < r; i++)
        {
            for (int j = 0; j < c; j++)
            {
                m(i, j) = number(value());
                s += ref::str(dump(m(i, j))) + (j + 1 < c ? ", " : "");
            }
            s += i + 1 < r ? "; " : "";
        }
        ctx.log("matrix " + std::to_string(r) + " x " + std::to_string(c) + " " + s.substr(0, 900) + "]");
        return m;
    }
    MD plain(int r, int c)
    {
        MD m(r, c);
        Vec d;
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                d.push_back(double(m(i, j) = T(value())));
        ctx.log("plain " + std::to_string(r) + " x " + std::to_string(c) + " " + ref::str(d));
        return m;
    }
    template <typename F>
    RM map(const RM &a, F f)
    {
        RM r(a.r, a.c);
        for (std::size_t i = 0; i < a.v.size(); i++)
            r.v[i] = f(a.v[i]);
        return r;
    }
    RM zip(const RM &a, const RM &b, B op)
    {
        RM r(a.r, a.c);
        for (std::size_t i = 0; i < a.v.size(); i++)
            r.v[i] = ref::bin(op, a.v[i], b.v[i], eps);
        return r;
    }
    RM product(const RM &a, const RM &b)
    {
        RM r(a.r, b.c);
        for (int i = 0; i < a.r; i++)
            for (int j = 0; j < b.c; j++)
            {
                ref::J s(n, int(N::order()));
                for (int k = 0; k < a.c; k++)
                    s = ref::bin(ADD, s, ref::bin(MUL, a(i, k), b(k, j), eps), eps);
                r(i, j) = s;
            }
        return r;
    }
    RM constant(const MD &a)
    {
        RM r(int(a.rows()), int(a.cols()));
        for (int i = 0; i < r.r; i++)
            for (int j = 0; j < r.c; j++)
                r(i, j) = ref::constant(double(a(i, j)), n, int(N::order()));
        return r;
    }
    ref::J total(const RM &a)
    {
        ref::J s(n, int(N::order()));
        for (auto &x : a.v)
            s = ref::bin(ADD, s, x, eps);
        return s;
    }
    bool values(const RM &a, const std::function<bool(double)> &p)
    {
        for (auto &x : a.v)
            if (!p(double(x.f)))
                return false;
        return true;
    }
    static std::string name() { return std::string("order ") + std::to_string(N::order()) + (fl ? " float" : " double") + (N::is_dynamic() ? " dynamic" : ""); }

    void elementwise()
    {
        const int r = int(src.range(1, 4)), c = int(src.range(1, 4));
        const M a = matrix(r, c), b = matrix(r, c);
        const RM ra = model(a), rb = model(b);
        const T s = T(value());
        const int kind = int(src.range(0, 11));
        std::string what;
        M h;
        RM want(r, c);
        switch (kind)
        {
        case 0: what = "a + b"; h = a + b; want = zip(ra, rb, ADD); break;
        case 1: what = "a - b"; h = a - b; want = zip(ra, rb, SUB); break;
        case 2: what = "-a"; h = -a; want = map(ra, [](const ref::J &x) { return ref::un(NEG, x, eps); }); break;
        case 3: what = "a * scalar"; h = a * s; want = map(ra, [&](const ref::J &x) { return ref::bin_ds(MUL, x, double(s), eps); }); break;
        case 4: what = "scalar * a"; h = s * a; want = map(ra, [&](const ref::J &x) { return ref::bin_sd(MUL, double(s), x, eps); }); break;
        case 5:
            what = "a / scalar";
            if (s == 0)
                ctx.discard();
            h = a / s;
            want = map(ra, [&](const ref::J &x) { return ref::bin_ds(DIV, x, double(s), eps); });
            break;
        case 6: what = "a.cwiseProduct(b)"; h = a.cwiseProduct(b); want = zip(ra, rb, MUL); break;
        case 7:
            what = "a.cwiseQuotient(b)";
            if (!values(rb, [](double x) { return x != 0; }))
                ctx.discard();
            h = a.cwiseQuotient(b);
            want = zip(ra, rb, DIV);
            break;
        case 8:
        {
            const N f = number(value());
            const ref::J rf = model(f);
            what = "a * number";
            h = a * f;
            want = map(ra, [&](const ref::J &x) { return ref::bin(MUL, x, rf, eps); });
            break;
        }
        case 9:
        {
            what = "a += b; a *= scalar; a -= b";
            h = a;
            h += b;
            if constexpr (N::is_dynamic())
                h = (h * s).eval(); // Eigen would make the scalar a number without variables
            else
                h *= s;
            h -= b;
            want = zip(map(zip(ra, rb, ADD), [&](const ref::J &x) { return ref::bin_ds(MUL, x, double(s), eps); }), rb, SUB);
            break;
        }
        case 10:
        {
            what = "a.transpose() of a block";
            h = a.transpose().block(0, 0, c, r);
            RM t(c, r);
            for (int i = 0; i < r; i++)
                for (int j = 0; j < c; j++)
                    t(j, i) = ra(i, j);
            want = t;
            break;
        }
        default:
        {
            what = "a.array() * b.array() + a.array()";
            h = (a.array() * b.array() + a.array()).matrix();
            want = zip(zip(ra, rb, MUL), ra, ADD);
        }
        }
        ctx.log(name() + ": " + what + ", scalar " + sci(double(s)));
        ctx.label(what);
        check(h, want, what);
        check(a, ra, "operand after the call");
        ctx.nontrivial = r * c >= 2;
    }
    void functions()
    {
        const int r = int(src.range(1, 3)), c = int(src.range(1, 3));
        M a = matrix(r, c);
        const U ops[] = {SIN, COS, TAN, EXP, SQRT, LOG, ABS, TANH, ASIN, ATAN, SINH, COSH, ACOS};
        const U op = ops[src.range(0, 12)];
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
            {
                const double x = double(a(i, j).f());
                double y = x;
                if (op == SQRT || op == LOG)
                    y = std::fabs(x) + 0.125;
                if (op == ASIN || op == ACOS)
                    y = std::fmod(x, 0.9);
                if (op == EXP || op == SINH || op == COSH || op == TANH)
                    y = std::fmod(x, 8);
                if (op == ABS && x == 0)
                    y = -0.5;
                if (op == TAN && std::fabs(std::cos(x)) < 0.05)
                    y = 0.5;
                a(i, j).f() = T(y);
            }
        const RM ra = model(a);
        M h;
        switch (op)
        {
        case SIN: h = a.array().sin().matrix(); break;
        case COS: h = a.array().cos().matrix(); break;
        case TAN: h = a.array().tan().matrix(); break;
        case EXP: h = a.array().exp().matrix(); break;
        case SQRT: h = a.cwiseSqrt(); break;
        case LOG: h = a.array().log().matrix(); break;
        case ABS: h = a.cwiseAbs(); break;
        case TANH: h = a.array().tanh().matrix(); break;
        case ASIN: h = a.array().asin().matrix(); break;
        case ACOS: h = a.array().acos().matrix(); break;
        case ATAN: h = a.array().atan().matrix(); break;
        case SINH: h = a.array().sinh().matrix(); break;
        default: h = a.array().cosh().matrix(); break;
        }
        ctx.log(name() + ": array " + U_NAME[op]);
        ctx.label(U_NAME[op]);
        check(h, map(ra, [&](const ref::J &x) { return ref::un(op, x, eps); }), U_NAME[op]);
        ctx.nontrivial = r * c >= 2;
    }
    void mixed()
    {
        const int r = int(src.range(1, 3)), c = int(src.range(1, 3)), k = int(src.range(1, 3));
        const M a = matrix(r, c);
        const MD d = plain(r, c);
        const RM ra = model(a), rd = constant(d);
        M h;
        RM want(r, c);
        std::string what;
        const int kind = int(src.range(0, N::is_dynamic() ? 5 : 8));
        switch (kind)
        {
        case 0: what = "a + plain"; h = a + d; want = zip(ra, rd, ADD); break;
        case 1: what = "plain - a"; h = d - a; want = zip(rd, ra, SUB); break;
        case 2: what = "plain.cwiseProduct(a)"; h = d.cwiseProduct(a); want = zip(rd, ra, MUL); break;
        case 3: what = "a.cwiseProduct(plain)"; h = a.cwiseProduct(d); want = zip(ra, rd, MUL); break;
        case 4:
            what = "a.cwiseQuotient(plain)";
            // with other than fixed sizes Eigen would make the plain entries numbers without variables
            if (N::is_dynamic() || !values(rd, [](double x) { return x != 0; }))
                ctx.discard();
            h = a.cwiseQuotient(d);
            want = zip(ra, rd, DIV);
            break;
        case 5: what = "a += plain"; h = a; h += d; want = zip(ra, rd, ADD); break;
        case 6:
        {
            const MD e = plain(c, k);
            what = "a * plain matrix";
            h = a.lazyProduct(e);
            want = product(ra, constant(e));
            break;
        }
        case 7:
        {
            const MD e = plain(k, r);
            what = "plain matrix * a";
            h = e.lazyProduct(a);
            want = product(constant(e), ra);
            break;
        }
        default:
        {
            what = "a.col(0).dot(plain.col(0))";
            h = M(1, 1);
            h(0, 0) = a.col(0).dot(d.col(0));
            RM x(1, 1);
            x(0, 0) = ref::J(n, int(N::order()));
            for (int i = 0; i < r; i++)
                x(0, 0) = ref::bin(ADD, x(0, 0), ref::bin(MUL, ra(i, 0), rd(i, 0), eps), eps);
            want = x;
        }
        }
        ctx.log(name() + ": " + what);
        ctx.label(what);
        check(h, want, what);
        ctx.nontrivial = r * c >= 2;
    }
    void reductions()
    {
        const int r = int(src.range(1, 4)), c = int(src.range(1, 4));
        const M a = matrix(r, c);
        const RM ra = model(a);
        std::string what;
        N h;
        ref::J want;
        const int kind = int(src.range(0, 9));
        switch (kind)
        {
        case 0: what = "sum"; h = a.sum(); want = total(ra); break;
        case 1:
            what = "prod";
            h = a.prod();
            want = ra.v[0];
            for (std::size_t i = 1; i < ra.v.size(); i++)
                want = ref::bin(MUL, want, ra.v[i], eps);
            break;
        case 2:
            what = "trace";
            h = a.trace();
            want = ref::J(n, int(N::order()));
            for (int i = 0; i < std::min(r, c); i++)
                want = ref::bin(ADD, want, ra(i, i), eps);
            break;
        case 3: what = "squaredNorm"; h = a.squaredNorm(); want = total(zip(ra, ra, MUL)); break;
        case 4:
            what = "norm";
            if (values(ra, [](double x) { return x == 0; }))
                ctx.discard();
            h = a.norm();
            want = ref::un(SQRT, total(zip(ra, ra, MUL)), eps);
            break;
        case 5:
        {
            const M b = matrix(r, c);
            const RM rb = model(b);
            what = "dot";
            h = a.col(0).dot(b.col(0));
            want = ref::J(n, int(N::order()));
            for (int i = 0; i < r; i++)
                want = ref::bin(ADD, want, ref::bin(MUL, ra(i, 0), rb(i, 0), eps), eps);
            break;
        }
        case 6:
        case 7:
        {
            // the entry with the smallest or largest value, with its derivatives
            std::size_t best = 0;
            for (std::size_t i = 1; i < ra.v.size(); i++)
            {
                if (kind == 6 ? ra.v[i].f < ra.v[best].f : ra.v[i].f > ra.v[best].f)
                    best = i;
                for (std::size_t q = 0; q < i; q++)
                    if (ra.v[q].f == ra.v[i].f)
                        ctx.discard(); // any of the equal entries may be chosen
            }
            what = kind == 6 ? "minCoeff" : "maxCoeff";
            h = kind == 6 ? a.minCoeff() : a.maxCoeff();
            want = ra.v[best];
            break;
        }
        case 8:
        {
            what = "rowwise and colwise sums";
            h = a.rowwise().sum().eval().sum();
            const N g = a.colwise().sum().eval().sum();
            want = total(ra);
            check(g, want, what);
            break;
        }
        default:
        {
            what = "lpNorm<1>";
            if (!values(ra, [](double x) { return x != 0; }))
                ctx.discard();
            h = a.template lpNorm<1>();
            want = total(map(ra, [](const ref::J &x) { return ref::un(ABS, x, eps); }));
        }
        }
        ctx.log(name() + ": " + what);
        ctx.label(what);
        check(h, want, what);
        ctx.nontrivial = r * c >= 2;
    }
    void products() // static number types
    {
        const int kind = int(src.range(0, 5));
        const int r = int(src.range(1, 4)), k = int(src.range(1, 5)), c = int(src.range(1, 4));
        std::string what;
        if (kind <= 1)
        {
            const M a = matrix(r, k), b = matrix(k, c);
            what = kind ? "noalias product" : "product";
            M h;
            if (kind)
                h.noalias() = a * b;
            else
                h = a * b;
            ctx.log(name() + ": " + what);
            check(h, product(model(a), model(b)), what);
        }
        else if (kind == 2)
        {
            const M a = matrix(r, k), b = matrix(r, c);
            what = "a.transpose() * b";
            const M h = a.transpose() * b;
            ctx.log(name() + ": " + what);
            const RM ra = model(a);
            RM t(k, r);
            for (int i = 0; i < r; i++)
                for (int j = 0; j < k; j++)
                    t(j, i) = ra(i, j);
            check(h, product(t, model(b)), what);
        }
        else if (kind == 3)
        {
            const M a = matrix(r, r);
            what = "a *= a";
            M h = a;
            h *= a;
            ctx.log(name() + ": " + what);
            check(h, product(model(a), model(a)), what);
        }
        else if (kind == 4)
        {
            const M a = matrix(3, 1), b = matrix(3, 1);
            const Eigen::Matrix<N, 3, 1> u = a, v = b;
            what = "cross";
            const Eigen::Matrix<N, 3, 1> w = u.cross(v);
            ctx.log(name() + ": " + what);
            const RM ra = model(a), rb = model(b);
            RM want(3, 1);
            for (int i = 0; i < 3; i++)
                want(i, 0) = ref::bin(SUB, ref::bin(MUL, ra((i + 1) % 3, 0), rb((i + 2) % 3, 0), eps), ref::bin(MUL, ra((i + 2) % 3, 0), rb((i + 1) % 3, 0), eps), eps);
            check(M(w), want, what);
        }
        else
        {
            const M a = matrix(3, 1);
            const Eigen::Matrix<N, 3, 1> u = a;
            const RM ra = model(a);
            double s = 0;
            for (auto &x : ra.v)
                s += double(x.f) * double(x.f);
            if (s < 1e-4)
                ctx.discard();
            what = "normalized";
            ctx.log(name() + ": " + what);
            const ref::J len = ref::un(SQRT, total(zip(ra, ra, MUL)), eps);
            check(M(u.normalized()), map(ra, [&](const ref::J &x) { return ref::bin(DIV, x, len, eps); }), what);
        }
        ctx.label(what);
        ctx.nontrivial = true;
    }
    // diagonally dominant up to a permutation of the rows, so well conditioned
    M regular(int k)
    {
        M m(k, k);
        std::vector<int> perm(k);
        for (int i = 0; i < k; i++)
            perm[i] = i;
        for (int i = k - 1; i > 0; i--)
            std::swap(perm[i], perm[src.range(0, i)]);
        std::string s;
        for (int i = 0; i < k; i++)
            for (int j = 0; j < k; j++)
            {
                const double x = double(src.range(0, 16) - 8) / 8;
                m(perm[i], j) = number(i == j ? (x < 0 ? -4 + x : 4 + x) : x);
            }
        for (int i = 0; i < k; i++)
            for (int j = 0; j < k; j++)
                s += (j ? ", " : "; ") + ref::str(dump(m(i, j)));
        ctx.log("regular " + std::to_string(k) + " x " + std::to_string(k) + " " + s.substr(0, 1200));
        return m;
    }
    // a * x = b in value and derivatives, up to rounding
    void residual(const M &a, const M &x, const M &b, const std::string &what)
    {
        const RM ra = model(a), rx = model(x), rb = model(b);
        double mx = 1;
        for (auto *m : {&ra, &rx, &rb})
            for (auto &q : m->v)
                for (double e : ref::pack(q))
                {
                    ctx.require(std::isfinite(e), what + ": not finite");
                    mx = std::max(mx, std::fabs(e));
                }
        const double tol = (fl ? 2e-4 : 1e-11) * mx * mx * mx;
        const RM p = product(ra, rx);
        for (std::size_t i = 0; i < p.v.size(); i++)
        {
            const Vec l = ref::pack(p.v[i]), r = ref::pack(rb.v[i]);
            for (std::size_t q = 0; q < l.size(); q++)
                if (!(std::fabs(l[q] - r[q]) <= tol))
                    ctx.fail(what + ": the product of matrix and solution has " + ref::str(l) + ", expected " + ref::str(r));
        }
    }
    void solve()
    {
        const int k = int(src.range(1, 4));
        std::string what;
        const int kind = int(src.range(0, 4));
        if (kind == 0)
        {
            const M a = regular(3);
            const Eigen::Matrix<N, 3, 3> f = a;
            what = "inverse 3 x 3";
            ctx.log(name() + ": " + what);
            residual(a, M(f.inverse()), M(M::Identity(3, 3)), what);
        }
        else if (kind == 1)
        {
            const M a = regular(2);
            const Eigen::Matrix<N, 2, 2> f = a;
            what = "inverse 2 x 2";
            ctx.log(name() + ": " + what);
            residual(a, M(f.inverse()), M(M::Identity(2, 2)), what);
        }
        else if (kind == 2)
        {
            const M a = regular(3);
            const Eigen::Matrix<N, 3, 3> f = a;
            what = "determinant 3 x 3";
            ctx.log(name() + ": " + what);
            const RM m = model(a);
            auto mul = [&](const ref::J &p, const ref::J &q) { return ref::bin(MUL, p, q, eps); };
            ref::J d(n, int(N::order()));
            for (int i = 0; i < 3; i++)
            {
                d = ref::bin(ADD, d, mul(m(0, i), mul(m(1, (i + 1) % 3), m(2, (i + 2) % 3))), eps);
                d = ref::bin(SUB, d, mul(m(0, i), mul(m(1, (i + 2) % 3), m(2, (i + 1) % 3))), eps);
            }
            check(f.determinant(), d, what);
        }
        else
        {
            const M a = regular(k), b = matrix(k, int(src.range(1, 2)));
            what = kind == 3 ? "partialPivLu().solve" : "fullPivLu().solve"; // no QR: Eigen's reflections skip columns whose values are zero, whatever their derivatives
            ctx.log(name() + ": " + what);
            residual(a, kind == 3 ? M(a.partialPivLu().solve(b)) : M(a.fullPivLu().solve(b)), b, what);
        }
        ctx.label(what);
        ctx.nontrivial = true;
    }
};
} // namespace eig
} // namespace hv
