// Included by one translation unit per instantiation (see tu.cpp).
#pragma once
#ifdef HV_NAMESPACE
#define hyperjet HV_NAMESPACE
#endif
#ifndef HV_NO_EIGEN
#include <Eigen/Core>
#endif
#include <hyperjet/hyperjet.h>

#include "backend.hpp"

#include <stdexcept>
#include <utility>

namespace hv
{
namespace
{
namespace hj = ::hyperjet;

[[noreturn]] inline void unsupported(const char *w) { throw Unsupported(w); }

template <hj::index O, typename S, hj::index N>
struct Impl : Backend
{
    using T = hj::DDScalar<O, S, N>;
    using Data = typename T::Data;
    struct Box : Obj
    {
        T v;
        explicit Box(const T &x) : v(x) {}
        explicit Box(T &&x, int) : v(std::move(x)) {}
    };
    static const T &u(const Obj &a) { return static_cast<const Box &>(a).v; }
    static T &u(Obj &a) { return static_cast<Box &>(a).v; }
    static P box(const T &x) { return P(new Box(x)); }
    static constexpr bool dyn = N < 0;

    Impl(const std::string &nm, double e)
    {
        name = nm;
        order = int(O);
        ssize = int(N);
        eps = e;
    }
    static Data to_data(const Vec &v)
    {
        Data d{};
        if constexpr (dyn)
            d.resize(v.size());
        else if (v.size() != d.size())
            throw std::logic_error("harness: data length");
        for (std::size_t i = 0; i < v.size(); i++)
            d[i] = S(v[i]);
        return d;
    }
    static std::vector<S> conv(const Vec &v)
    {
        std::vector<S> r;
        for (double x : v)
            r.push_back(S(x));
        return r;
    }

    P create(const Vec &v) const override { return box(T::create(to_data(v))); }
    P clone(const Obj &a) const override { return P(new Box(u(a))); }
    void assign(Obj &a, const Obj &b) const override { u(a) = u(b); }
    P move_out(Obj &a) const override { return P(new Box(std::move(u(a)), 0)); }
    void move_assign(Obj &a, Obj &b) const override { u(a) = std::move(u(b)); }
    void swap(Obj &a, Obj &b) const override { std::swap(u(a), u(b)); }
    P zero() const override { return box(T::zero()); }
    P zero(long n) const override { return box(T::zero(n)); }
    P empty() const override { return box(T::empty()); }
    P empty(long n) const override { return box(T::empty(n)); }
    P constant(double f) const override { return box(T::constant(S(f))); }
    P constant(double f, long n) const override { return box(T::constant(S(f), n)); }
    P variable(long i, double f) const override
    {
        if constexpr (dyn)
            unsupported("variable");
        else
            return box(T::variable(i, S(f)));
    }
    P variable(long i, double f, long n) const override { return box(T::variable(i, S(f), n)); }
    std::vector<P> variables(const Vec &values) const override
    {
        std::vector<P> r;
        for (auto &x : T::variables(conv(values)))
            r.push_back(box(x));
        return r;
    }
    template <hj::index K>
    static std::vector<P> va(const Vec &values)
    {
        std::array<S, std::size_t(K)> a{};
        for (std::size_t i = 0; i < std::size_t(K); i++)
            a[i] = S(values[i]);
        std::vector<P> r;
        auto vars = T::template variables<K>(a);
        for (auto &x : vars)
            r.push_back(box(x));
        return r;
    }
    std::vector<P> variables_array(const Vec &values) const override
    {
        if constexpr (dyn)
        {
            switch (values.size())
            {
            case 1: return va<1>(values);
            case 2: return va<2>(values);
            case 3: return va<3>(values);
            case 7: return va<7>(values);
            default: unsupported("variables_array");
            }
        }
        else
            return va<N>(values);
    }
    P default_ctor() const override
    {
        T x;
        if constexpr (!dyn)
            x.set_zero(); // contents are indeterminate by design
        return box(x);
    }
    P scalar_ctor(double f) const override { return box(T(S(f))); }
    P init_list(const Vec &v) const override
    {
        auto d = [&](int i) { return S(v[std::size_t(i)]); };
        switch (v.size())
        {
        case 1: { T x{d(0)}; return box(x); }
        case 2: { T x{d(0), d(1)}; return box(x); }
        case 3: { T x{d(0), d(1), d(2)}; return box(x); }
        case 4: { T x{d(0), d(1), d(2), d(3)}; return box(x); }
        case 5: { T x{d(0), d(1), d(2), d(3), d(4)}; return box(x); }
        case 6: { T x{d(0), d(1), d(2), d(3), d(4), d(5)}; return box(x); }
        case 10: { T x{d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8), d(9)}; return box(x); }
        case 15: { T x{d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8), d(9), d(10), d(11), d(12), d(13), d(14)}; return box(x); }
        default: unsupported("init_list");
        }
    }
    P data_ctor(const Vec &v, long n) const override
    {
        if constexpr (dyn)
            return box(T(to_data(v), n));
        else
            return box(T(to_data(v)));
    }
    long data_length_from_size(long n) const override { return T::data_length_from_size(n); }
    long size_from_data_length(long n) const override { return T::size_from_data_length(n); }

    long size(const Obj &a) const override { return u(a).size(); }
    long data_length(const Obj &a) const override { return u(a).data_length(); }
    bool is_dynamic() const override { return T::is_dynamic(); }
    Vec data(const Obj &a) const override
    {
        Vec r;
        for (const S &x : u(a).data())
            r.push_back(double(x));
        return r;
    }
    Vec ptr(const Obj &a) const override
    {
        Vec r;
        const S *p = u(a).ptr();
        for (long i = 0; i < u(a).data_length(); i++)
            r.push_back(double(p[i]));
        return r;
    }
    double f(const Obj &a, bool c) const override { return c ? double(u(a).f()) : double(const_cast<T &>(u(a)).f()); }
    void set_f(Obj &a, double v, bool ref) const override
    {
        if (ref)
            u(a).f() = S(v);
        else
            u(a).set_f(S(v));
    }
    double g(const Obj &a, long i, bool c) const override { return c ? double(u(a).g(i)) : double(const_cast<T &>(u(a)).g(i)); }
    void set_g(Obj &a, long i, double v, bool ref) const override
    {
        if (ref)
            u(a).g(i) = S(v);
        else
            u(a).set_g(i, S(v));
    }
    double h(const Obj &a, long i, long j, bool c) const override
    {
        if constexpr (O == 2)
            return c ? double(u(a).h(i, j)) : double(const_cast<T &>(u(a)).h(i, j));
        else
            unsupported("h");
    }
    void set_h(Obj &a, long i, long j, double v, bool ref) const override
    {
        if constexpr (O == 2)
        {
            if (ref)
                u(a).h(i, j) = S(v);
            else
                u(a).set_h(i, j, S(v));
        }
        else
            unsupported("set_h");
    }
    double h(const Obj &a, long k, bool c) const override
    {
        if constexpr (O == 2)
            return c ? double(u(a).h(k)) : double(const_cast<T &>(u(a)).h(k));
        else
            unsupported("h");
    }
    void set_h(Obj &a, long k, double v, bool ref) const override
    {
        if constexpr (O == 2)
        {
            if (ref)
                u(a).h(k) = S(v);
            else
                u(a).set_h(k, S(v));
        }
        else
            unsupported("set_h");
    }
    void set_zero(Obj &a) const override { u(a).set_zero(); }
    std::string text(const Obj &a, bool stream) const override
    {
        if (!stream)
            return const_cast<T &>(u(a)).to_string();
        std::ostringstream s;
        s << u(a);
        return s.str();
    }

#ifndef HV_NO_EIGEN
    using EM = typename T::Matrix;
    using EV = typename T::Vector;
    P from_arrays(double f, const Vec &g, const Vec &hm, long rows, long cols) const override
    {
        if constexpr (O == 2)
        {
            EV gv(static_cast<Eigen::Index>(g.size()));
            for (std::size_t i = 0; i < g.size(); i++)
                gv(Eigen::Index(i)) = S(g[i]);
            EM m(rows, cols);
            for (long i = 0; i < rows; i++)
                for (long j = 0; j < cols; j++)
                    m(i, j) = S(hm[std::size_t(i * cols + j)]);
            return box(T::from_arrays(S(f), gv, m));
        }
        else
            unsupported("from_arrays");
    }
    P from_gradient(double f, const Vec &g) const override
    {
        if constexpr (O == 1)
        {
            EV gv(static_cast<Eigen::Index>(g.size()));
            for (std::size_t i = 0; i < g.size(); i++)
                gv(Eigen::Index(i)) = S(g[i]);
            return box(T::from_gradient(S(f), gv));
        }
        else
            unsupported("from_gradient");
    }
    Vec adata(Obj &a) const override
    {
        auto r = u(a).adata();
        Vec v;
        for (long i = 0; i < r.size(); i++)
            v.push_back(double(r(i)));
        return v;
    }
    void set_adata(Obj &a, const Vec &v) const override
    {
        typename T::DataVector d(static_cast<Eigen::Index>(v.size()));
        for (std::size_t i = 0; i < v.size(); i++)
            d(Eigen::Index(i)) = S(v[i]);
        u(a).set_adata(d);
    }
    Vec ag(const Obj &a, bool c) const override
    {
        Vec v;
        if (c)
        {
            const auto r = u(a).ag();
            for (long i = 0; i < r.size(); i++)
                v.push_back(double(r(i)));
        }
        else
        {
            auto r = const_cast<T &>(u(a)).ag();
            for (long i = 0; i < r.size(); i++)
                v.push_back(double(r(i)));
        }
        return v;
    }
    void ag_write(Obj &a, long i, double v) const override { u(a).ag()(i) = S(v); }
    Vec hm(const Obj &a, const std::string &mode, bool out_form) const override
    {
        if constexpr (O == 2)
        {
            const long n = u(a).size();
            EM m(n, n);
            if (out_form)
            {
                m.setConstant(S(-77));
                u(a).hm(mode, m);
            }
            else
                m = u(a).hm(mode);
            Vec v;
            if (m.rows() != n || m.cols() != n)
                throw std::logic_error("harness: hm shape");
            for (long i = 0; i < n; i++)
                for (long j = 0; j < n; j++)
                    v.push_back(double(m(i, j)));
            return v;
        }
        else
            unsupported("hm");
    }
    void set_hm(Obj &a, const Vec &v, long rows, long cols) const override
    {
        if constexpr (O == 2)
        {
            EM m(rows, cols);
            for (long i = 0; i < rows; i++)
                for (long j = 0; j < cols; j++)
                    m(i, j) = S(v[std::size_t(i * cols + j)]);
            u(a).set_hm(m);
        }
        else
            unsupported("set_hm");
    }
    double eval(const Obj &a, const Vec &d) const override
    {
        if constexpr (dyn)
            return double(u(a).eval(conv(d)));
        else
        {
            std::array<S, std::size_t(N)> s{};
            for (std::size_t i = 0; i < std::size_t(N); i++)
                s[i] = S(d[i]);
            return double(u(a).eval(s));
        }
    }
#else
    P from_arrays(double, const Vec &, const Vec &, long, long) const override { unsupported("eigen"); }
    P from_gradient(double, const Vec &) const override { unsupported("eigen"); }
    Vec adata(Obj &) const override { unsupported("eigen"); }
    void set_adata(Obj &, const Vec &) const override { unsupported("eigen"); }
    Vec ag(const Obj &, bool) const override { unsupported("eigen"); }
    void ag_write(Obj &, long, double) const override { unsupported("eigen"); }
    Vec hm(const Obj &, const std::string &, bool) const override { unsupported("eigen"); }
    void set_hm(Obj &, const Vec &, long, long) const override { unsupported("eigen"); }
    double eval(const Obj &, const Vec &) const override { unsupported("eigen"); }
#endif

    void resize(Obj &a, long n) const override
    {
        if constexpr (dyn)
            u(a).resize(n);
        else
            unsupported("resize");
    }
    P pad_left(const Obj &a, long n) const override
    {
        if constexpr (dyn)
            return box(u(a).pad_left(n));
        else
            unsupported("pad_left");
    }
    P pad_right(const Obj &a, long n) const override
    {
        if constexpr (dyn)
            return box(u(a).pad_right(n));
        else
            unsupported("pad_right");
    }

    P un(U op, const Obj &oa, bool fr) const override
    {
        const T &a = u(oa);
        switch (op)
        {
        case NEG: return box(-a);
        case RECIP: return box(a.reciprocal());
#define HV_U(E, fn) case E: return fr ? box(hj::fn(a)) : box(a.fn());
        HV_U(SQRT, sqrt)
        HV_U(CBRT, cbrt)
        HV_U(COS, cos)
        HV_U(SIN, sin)
        HV_U(TAN, tan)
        HV_U(ACOS, acos)
        HV_U(ASIN, asin)
        HV_U(ATAN, atan)
        HV_U(COSH, cosh)
        HV_U(SINH, sinh)
        HV_U(TANH, tanh)
        HV_U(ACOSH, acosh)
        HV_U(ASINH, asinh)
        HV_U(ATANH, atanh)
        HV_U(EXP, exp)
        HV_U(LOG, log)
        HV_U(LOG2, log2)
        HV_U(LOG10, log10)
        HV_U(ABS, abs)
#undef HV_U
        default: unsupported("un");
        }
    }
    P bin(B op, const Obj &oa, const Obj &ob, bool fr) const override
    {
        const T &a = u(oa), &b = u(ob);
        switch (op)
        {
        case ADD: return box(a + b);
        case SUB: return box(a - b);
        case MUL: return box(a * b);
        case DIV: return box(a / b);
        case ATAN2: return fr ? box(hj::atan2(a, b)) : box(a.atan2(b));
        case HYPOT: return fr ? box(hj::hypot(a, b)) : box(T::hypot(a, b));
        default: unsupported("bin");
        }
    }
    P bin_ds(B op, const Obj &oa, double s) const override
    {
        const T &a = u(oa);
        switch (op)
        {
        case ADD: return box(a + S(s));
        case SUB: return box(a - S(s));
        case MUL: return box(a * S(s));
        case DIV: return box(a / S(s));
        default: unsupported("bin_ds");
        }
    }
    P bin_sd(B op, double s, const Obj &oa) const override
    {
        const T &a = u(oa);
        switch (op)
        {
        case ADD: return box(S(s) + a);
        case SUB: return box(S(s) - a);
        case MUL: return box(S(s) * a);
        case DIV: return box(S(s) / a);
        default: unsupported("bin_sd");
        }
    }
    void ip(B op, Obj &oa, const Obj &ob) const override
    {
        T &a = u(oa);
        const T &b = u(ob);
        switch (op)
        {
        case ADD: if (&(a += b) != &a) throw std::logic_error("result of += is not the operand"); return;
        case SUB: if (&(a -= b) != &a) throw std::logic_error("result of -= is not the operand"); return;
        case MUL: if (&(a *= b) != &a) throw std::logic_error("result of *= is not the operand"); return;
        case DIV: if (&(a /= b) != &a) throw std::logic_error("result of /= is not the operand"); return;
        default: unsupported("ip");
        }
    }
    void ip_s(B op, Obj &oa, double s) const override
    {
        T &a = u(oa);
        switch (op)
        {
        case ADD: a += S(s); return;
        case SUB: a -= S(s); return;
        case MUL: a *= S(s); return;
        case DIV: a /= S(s); return;
        default: unsupported("ip_s");
        }
    }
    void ip_own(B op, Obj &oa, long k) const override
    {
        T &a = u(oa);
        S &s = k == 0 ? a.f() : a.g(k - 1);
        switch (op)
        {
        case ADD: a += s; return;
        case SUB: a -= s; return;
        case MUL: a *= s; return;
        case DIV: a /= s; return;
        default: unsupported("ip_own");
        }
    }
    P hypot3(const Obj &a, const Obj &b, const Obj &c, bool fr) const override { return fr ? box(hj::hypot(u(a), u(b), u(c))) : box(T::hypot(u(a), u(b), u(c))); }
    P pow(const Obj &a, double b, int form) const override
    {
        if (form == 0)
            return box(u(a).pow(b));
        if (form == 1)
            return box(hj::pow(u(a), b));
        return box(hj::pow(u(a), hj::index(b)));
    }
    P log_base(const Obj &a, double base) const override { return box(u(a).log(S(base))); }

    template <typename X, typename Y>
    static bool cmp_(C op, const X &a, const Y &b)
    {
        switch (op)
        {
        case EQ: return a == b;
        case NE: return a != b;
        case LT: return a < b;
        case GT: return a > b;
        case LE: return a <= b;
        case GE: return a >= b;
        default: unsupported("cmp");
        }
    }
    bool cmp(C op, const Obj &a, const Obj &b) const override { return cmp_(op, u(a), u(b)); }
    bool cmp_ds(C op, const Obj &a, double s) const override { return cmp_(op, u(a), S(s)); }
    bool cmp_sd(C op, double s, const Obj &a) const override { return cmp_(op, S(s), u(a)); }
};
} // namespace
} // namespace hv
