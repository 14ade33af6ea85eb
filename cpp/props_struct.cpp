// C08 .. C13, C17: layout, construction, padding, evaluation, comparison, validation, histories
#include "harness.hpp"
#include <algorithm>
#include <cmath>

namespace hv
{
static bool is_float(const Backend &b) { return b.eps > 1e-10; }
static long pos(long n, long i, long j) // packed position of the Hessian entry, i <= j
{
    long k = 1 + n;
    for (long r = 0; r < i; r++)
        k += n - r;
    return k + j - i;
}
static double gen_entry(Src &s, const Backend &b) { return round_to(b, s.chance(10) ? (s.chance(50) ? INFINITY : 1e30) : gen_small(s)); }
static std::string brief(const Vec &d) { return ref::str(d.size() <= 40 ? d : Vec(d.begin(), d.begin() + 40)); }

// every way of reading the number agrees with the packed model m
static void check_views(Ctx &ctx, const Backend &b, Obj &a, const Vec &m, long n, const std::string &what)
{
    ctx.require(b.size(a) == n, what + ": size() = " + std::to_string(b.size(a)));
    ctx.require(b.data_length(a) == long(m.size()), what + ": data_length() = " + std::to_string(b.data_length(a)));
    check_same(ctx, b.data(a), m, what + ": data()");
    check_same(ctx, b.ptr(a), m, what + ": ptr()");
    check_same(ctx, b.adata(a), m, what + ": adata()");
    const Vec g(m.begin() + 1, m.begin() + 1 + n);
    check_same(ctx, b.ag(a, true), g, what + ": ag() const");
    check_same(ctx, b.ag(a, false), g, what + ": ag()");
    for (int c = 0; c < 2; c++)
    {
        ctx.require(same_value(b.f(a, c), m[0]), what + ": f() = " + sci(b.f(a, c)) + ", expected " + sci(m[0]));
        for (long i = 0; i < n; i++)
            ctx.require(same_value(b.g(a, i, c), m[1 + i]), what + ": g(" + std::to_string(i) + ") = " + sci(b.g(a, i, c)) + ", expected " + sci(m[1 + i]));
        if (b.order == 2)
        {
            for (long i = 0; i < n; i++)
                for (long j = 0; j < n; j++)
                {
                    const double want = m[pos(n, std::min(i, j), std::max(i, j))], have = b.h(a, i, j, c);
                    ctx.require(same_value(have, want), what + ": h(" + std::to_string(i) + "," + std::to_string(j) + ") = " + sci(have) + ", expected " + sci(want));
                }
            for (long k = 0; k < n * (n + 1) / 2; k++)
                ctx.require(same_value(b.h(a, k, c), m[1 + n + k]), what + ": h(" + std::to_string(k) + ") = " + sci(b.h(a, k, c)) + ", expected " + sci(m[1 + n + k]));
        }
    }
    if (b.order == 2)
        for (int out = 0; out < 2; out++)
            for (int full = 0; full < 2; full++)
            {
                Vec want(n * n, 0.0);
                for (long i = 0; i < n; i++)
                    for (long j = i; j < n; j++)
                    {
                        want[i * n + j] = m[pos(n, i, j)];
                        if (full)
                            want[j * n + i] = m[pos(n, i, j)];
                    }
                check_same(ctx, b.hm(a, full ? "full" : "zeros", out), want, what + ": hm(" + (full ? "full" : "zeros") + (out ? ", out)" : ")"));
            }
}
// -------------------------------------------------------------------- C08
PROPERTY(C08, writes, 6, "two or more variables and two or more writes through different accessors", 260)
{
    const Backend &b = pick_backend(src);
    const long n = pick_size(src, b, 14);
    Vec m = gen_data(src, b, int(n), gen_small(src));
    P p = b.create(m);
    Obj &a = *p;
    ctx.log(show(b, int(n)) + " " + brief(m));
    check_views(ctx, b, a, m, n, "initially");
    const int steps = int(src.range(1, 8));
    unsigned used = 0;
    for (int t = 0; t < steps; t++)
    {
        const double v = gen_entry(src, b);
        const bool by_ref = src.chance(50);
        const int kind = int(src.range(0, 8));
        std::string what;
        const std::string at = by_ref ? " by reference" : "";
        if (kind <= 1 && n > 0)
        {
            const long i = src.range(0, n - 1);
            what = "g(" + std::to_string(i) + ") = " + sci(v) + at;
            if (kind == 0)
                b.set_g(a, i, v, by_ref);
            else
                b.ag_write(a, i, v), what += " through ag()";
            m[1 + i] = v;
        }
        else if (kind <= 4 && n > 0 && b.order == 2)
        {
            const long i = src.range(0, n - 1), j = src.range(0, n - 1);
            what = "h(" + std::to_string(i) + "," + std::to_string(j) + ") = " + sci(v) + at;
            b.set_h(a, i, j, v, by_ref);
            m[pos(n, std::min(i, j), std::max(i, j))] = v;
        }
        else if (kind == 5 && n > 0 && b.order == 2)
        {
            const long k = src.range(0, n * (n + 1) / 2 - 1);
            what = "h(" + std::to_string(k) + ") = " + sci(v) + at;
            b.set_h(a, k, v, by_ref);
            m[1 + n + k] = v;
        }
        else if (kind == 6 && b.order == 2)
        {
            // not symmetric on purpose: only the upper triangle counts
            Vec h(n * n);
            for (long i = 0; i < n * n; i++)
                h[i] = double(i % 2 ? -(i + t + 1) : i + 3) / 4;
            what = "set_hm";
            b.set_hm(a, h, n, n);
            for (long i = 0; i < n; i++)
                for (long j = i; j < n; j++)
                    m[pos(n, i, j)] = h[i * n + j];
        }
        else if (kind == 7)
        {
            what = "set_adata";
            for (std::size_t i = 0; i < m.size(); i++)
                m[i] = double(long(i * 7 + t) % 23) - 11;
            b.set_adata(a, m);
        }
        else
        {
            if (src.chance(15))
            {
                what = "set_zero";
                b.set_zero(a);
                std::fill(m.begin(), m.end(), 0.0);
            }
            else
            {
                what = "f() = " + sci(v) + at;
                b.set_f(a, v, by_ref);
                m[0] = v;
            }
        }
        used |= 1u << kind;
        ctx.log(what);
        check_views(ctx, b, a, m, n, "after " + what);
    }
    ctx.nontrivial = n >= 2 && steps >= 2 && (used & (used - 1));
}
PROPERTY(C08, arrays, 2, "two or more variables", 120)
{
    const Backend &b = pick_backend(src);
    const long n = pick_size(src, b, 14);
    const double f = round_to(b, gen_small(src));
    const Vec d = gen_data(src, b, int(n), f);
    const Vec g(d.begin() + 1, d.begin() + 1 + n);
    ctx.log(show(b, int(n)) + " " + brief(d));
    P p;
    if (b.order == 1)
        p = b.from_gradient(f, g);
    else
    {
        const bool symmetric = src.chance(50);
        Vec h(n * n);
        for (long i = 0; i < n; i++)
            for (long j = 0; j < n; j++)
                h[i * n + j] = j >= i || symmetric ? d[pos(n, std::min(i, j), std::max(i, j))] : -777.0 - i;
        p = b.from_arrays(f, g, h, n, n);
    }
    check_views(ctx, b, *p, d, n, "from arrays");
    if (b.order == 2 && default_config() != "noexc")
    {
        static const char *BAD[] = {"", "Full", "full ", "upper", "zero", "symmetric", "full\n", "lower"};
        const std::string mode = BAD[src.raw() % 8];
        ctx.log("mode '" + mode + "'");
        ctx.require(throws([&]() { b.hm(*p, mode, false); }), "matrix mode '" + mode + "' is accepted");
        ctx.require(throws([&]() { b.hm(*p, mode, true); }), "matrix mode '" + mode + "' is accepted");
        check_views(ctx, b, *p, d, n, "after the rejected mode");
    }
    ctx.nontrivial = n >= 2;
}

// -------------------------------------------------------------------- C09
PROPERTY(C09, constructors, 6, "one or more variables", 80)
{
    const Backend &b = pick_backend(src);
    const long n = pick_size(src, b, 40);
    const double f = round_to(b, gen_wide(src, 20));
    const int form = int(src.range(0, 13));
    ctx.log(show(b, int(n)) + " form " + std::to_string(form) + " value " + sci(f));
    ctx.label("form " + std::to_string(form));
    const long n0 = b.dynamic() ? 0 : n; // forms without a size
    auto packed = [&](long k, double v) {
        Vec d(b.len(k), 0.0);
        d[0] = v;
        return d;
    };
    auto expect = [&](const Obj &a, const Vec &m, long k, const std::string &what) {
        ctx.require(b.size(a) == k, what + ": size " + std::to_string(b.size(a)) + ", expected " + std::to_string(k));
        ctx.require(b.data_length(a) == long(m.size()), what + ": data length " + std::to_string(b.data_length(a)) + ", expected " + std::to_string(m.size()));
        check_same(ctx, b.data(a), m, what);
    };
    ctx.require(b.is_dynamic() == b.dynamic(), "is_dynamic");
    switch (form)
    {
    case 0: expect(*b.constant(f, n), packed(n, f), n, "constant(f, size)"); break;
    case 1: expect(*b.constant(f), packed(n0, f), n0, "constant(f)"); break;
    case 2: expect(*b.zero(n), packed(n, 0), n, "zero(size)"); break;
    case 3: expect(*b.zero(), packed(n0, 0), n0, "zero()"); break;
    case 4: expect(*b.scalar_ctor(f), packed(n0, f), n0, "constructor from a scalar"); break;
    case 5:
    {
        const P e = b.empty(n), d = b.empty(), c = b.default_ctor();
        ctx.require(b.size(*e) == n && b.data_length(*e) == long(b.len(n)), "empty(size): wrong size");
        ctx.require(b.size(*d) == n0 && b.data_length(*d) == long(b.len(n0)), "empty(): wrong size");
        expect(*c, packed(n0, 0), n0, "default constructor");
        break;
    }
    case 6: case 7:
    {
        if (n == 0)
            ctx.discard();
        const long i = src.range(0, n - 1);
        Vec m = packed(n, f);
        m[1 + i] = 1;
        ctx.log("variable " + std::to_string(i));
        if (form == 6 && !b.dynamic())
            expect(*b.variable(i, f), m, n, "variable(i, f)");
        expect(*b.variable(i, f, n), m, n, "variable(i, f, size)");
        break;
    }
    case 8: case 9:
    {
        Vec v;
        long k = n;
        static const long ARR[] = {1, 2, 3, 7};
        if (form == 9 && b.dynamic())
            k = ARR[src.raw() % 4];
        for (long i = 0; i < k; i++)
            v.push_back(round_to(b, gen_small(src)));
        ctx.log("values " + ref::str(v));
        const std::vector<P> r = form == 8 ? b.variables(v) : b.variables_array(v);
        ctx.require(long(r.size()) == k, "variables: " + std::to_string(r.size()) + " numbers");
        for (long i = 0; i < k; i++)
        {
            Vec m = packed(k, v[i]);
            m[1 + i] = 1;
            expect(*r[i], m, k, "variables()[" + std::to_string(i) + "]");
        }
        break;
    }
    case 10:
    {
        const Vec d = gen_data(src, b, int(n), f);
        expect(*b.create(d), d, n, "create(data)");
        break;
    }
    case 11:
    {
        const Vec d = gen_data(src, b, int(n), f);
        expect(*b.data_ctor(d, n), d, n, "constructor from data");
        break;
    }
    case 12:
    {
        const long k = b.dynamic() ? src.range(0, 4) : n;
        const Vec d = gen_data(src, b, int(k), f);
        if (d.size() > 15 || (d.size() > 6 && d.size() != 10 && d.size() != 15))
            ctx.discard();
        expect(*b.init_list(d), d, k, "initializer list");
        break;
    }
    default:
    {
        const long k = src.range(0, src.chance(50) ? 60 : 2000000);
        const long len = b.order == 1 ? 1 + k : (k + 1) * (k + 2) / 2;
        ctx.log("size " + std::to_string(k));
        ctx.require(b.data_length_from_size(k) == len, "data_length_from_size(" + std::to_string(k) + ") = " + std::to_string(b.data_length_from_size(k)));
        ctx.require(b.size_from_data_length(len) == k, "size_from_data_length(" + std::to_string(len) + ") = " + std::to_string(b.size_from_data_length(len)));
        break;
    }
    }
    ctx.nontrivial = n > 0;
}

// -------------------------------------------------------------------- C10
static bool is_dyn(const Backend &b) { return b.dynamic(); }
// model of the change: variables kept [0, common) of old go to offset
static Vec remap(const Backend &b, const Vec &m, long n, long to, long offset)
{
    Vec r(b.len(to), 0.0);
    r[0] = m[0];
    const long common = std::min(n, to - offset);
    for (long i = 0; i < common; i++)
        r[1 + offset + i] = m[1 + i];
    if (b.order == 2)
        for (long i = 0; i < common; i++)
            for (long j = i; j < common; j++)
                r[pos(to, offset + i, offset + j)] = m[pos(n, i, j)];
    return r;
}
PROPERTY(C10, histories, 5, "two or more size changes of a number with two or more variables", 200)
{
    const Backend &b = pick_backend_if(src, is_dyn);
    long n = src.range(0, 10);
    Vec m = gen_data(src, b, int(n), gen_small(src));
    P a = b.create(m);
    ctx.log(show(b, int(n)) + " " + brief(m));
    const int steps = int(src.range(1, 6));
    bool big = n >= 2;
    for (int t = 0; t < steps && !src.exhausted(); t++)
    {
        const int kind = int(src.range(0, 2));
        if (kind == 2)
        {
            const long to = src.chance(50) ? src.range(0, 14) : std::max<long>(0, n + src.range(0, 4) - 2);
            ctx.log("resize(" + std::to_string(to) + ")");
            b.resize(*a, to);
            m = remap(b, m, n, to, 0);
            n = to;
        }
        else
        {
            const long to = n + src.range(0, 5);
            if (to > 30)
                break;
            ctx.log(std::string(kind ? "pad_left(" : "pad_right(") + std::to_string(to) + ")");
            const P r = kind ? b.pad_left(*a, to) : b.pad_right(*a, to);
            check_same(ctx, b.data(*a), m, "operand of padding");
            ctx.require(b.size(*a) == n, "operand of padding changed its size");
            m = remap(b, m, n, to, kind ? to - n : 0);
            n = to;
            a = b.clone(*r);
        }
        ctx.require(b.size(*a) == n, "size " + std::to_string(b.size(*a)) + ", expected " + std::to_string(n));
        ctx.require(b.data_length(*a) == long(m.size()), "data length " + std::to_string(b.data_length(*a)) + ", expected " + std::to_string(m.size()));
        check_same(ctx, b.data(*a), m, "after step " + std::to_string(t + 1));
        big |= n >= 2;
    }
    ctx.nontrivial = big && steps >= 2;
}
static ref::J remap(const Backend &b, const ref::J &j, int to, int offset)
{
    ref::J r(to, b.order);
    r.f = j.f;
    r.ef = j.ef;
    for (int i = 0; i < j.n; i++)
    {
        r.g[offset + i] = j.g[i];
        r.eg[offset + i] = j.eg[i];
        if (b.order == 2)
            for (int k = 0; k < j.n; k++)
            {
                r.H[(offset + i) * to + offset + k] = j.H[i * j.n + k];
                r.eH[(offset + i) * to + offset + k] = j.eH[i * j.n + k];
            }
    }
    return r;
}
PROPERTY(C10, commutes, 3, "one or more variables added to operands with derivatives", 200)
{
    const Backend &b = pick_backend_if(src, is_dyn);
    const int n = int(src.range(0, 6)), to = n + int(src.range(0, 5));
    const bool left = src.chance(50), unary = src.chance(50);
    bool d1, d2;
    auto pad = [&](const Obj &x) { return left ? b.pad_left(x, to) : b.pad_right(x, to); };
    P a, c, r1, r2;
    ref::J want;
    if (unary)
    {
        const U op = U(src.range(0, U_COUNT - 1));
        a = b.create(gen_data(src, b, n, gen_arg(src, op, b), &d1));
        d2 = true;
        ctx.log(show(b, n) + (left ? " pad_left " : " pad_right ") + std::to_string(to) + " " + U_NAME[op] + " " + brief(b.data(*a)));
        r1 = pad(*b.un(op, *a, false));
        r2 = b.un(op, *pad(*a), false);
        want = ref::un(op, ref::from_data(b.data(*a), n, b.order), b.eps);
    }
    else
    {
        const B op = B(src.range(0, B_COUNT - 1));
        const double x = gen_wide(src, 4);
        double y = gen_wide(src, 4);
        y = round_to(b, y) == 0 ? 1 : y;
        a = b.create(gen_data(src, b, n, x, &d1));
        c = b.create(gen_data(src, b, n, y, &d2));
        ctx.log(show(b, n) + (left ? " pad_left " : " pad_right ") + std::to_string(to) + " " + B_NAME[op] + " " + brief(b.data(*a)) + " " + brief(b.data(*c)));
        r1 = pad(*b.bin(op, *a, *c, false));
        r2 = b.bin(op, *pad(*a), *pad(*c), false);
        want = ref::bin(op, ref::from_data(b.data(*a), n, b.order), ref::from_data(b.data(*c), n, b.order), b.eps);
    }
    const ref::J w = remap(b, want, to, left ? to - n : 0);
    check_jet(ctx, b, *r1, w, "pad after the operation");
    check_jet(ctx, b, *r2, w, "operation after padding");
    ctx.nontrivial = d1 && d2 && n > 0 && to > n;
}

// -------------------------------------------------------------------- C11
PROPERTY(C11, taylor, 5, "two or more variables with derivatives and a step with two or more non-zero entries", 160)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 24);
    const Vec d = gen_data(src, b, n, gen_wide(src, 6), &ctx.nontrivial);
    Vec step;
    int nz = 0;
    const int pat = int(src.range(0, 2));
    for (int i = 0; i < n; i++)
    {
        step.push_back(pat == 0 ? (i == 0) : pat == 1 ? round_to(b, gen_small(src)) : double(src.range(0, 8)) - 4);
        nz += step.back() != 0;
    }
    ctx.log(show(b, n) + " eval at " + ref::str(step) + " of " + brief(d));
    const P a = b.create(d);
    const double have = b.eval(*a, step);
    const ref::Val want = ref::eval(ref::from_data(d, n, b.order), step, b.eps);
    if (!(std::fabs(double(want.v) - have) <= want.e + floor_of(b)))
        ctx.fail("eval = " + sci(have) + ", expected " + ref::str(want.v) + " +- " + sci(want.e));
    check_same(ctx, b.data(*a), d, "the number after eval");
    ctx.nontrivial = ctx.nontrivial && n >= 2 && nz >= 2;
}
PROPERTY(C11, quadratic, 2, "two or more variables", 200)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.order == 2 && x.eps < 1e-10 && x.ssize != 0; });
    const int n = std::max(1, pick_size(src, b, 8));
    Vec x0, d;
    for (int i = 0; i < n; i++)
    {
        x0.push_back(double(src.range(0, 16) - 8) / 4);
        d.push_back(double(src.range(0, 16) - 8) / 4);
    }
    const int terms = int(src.range(1, 8));
    struct T { double c; int i, j; };
    std::vector<T> q;
    for (int t = 0; t < terms; t++)
    {
        T x{double(src.range(0, 12) - 6), 0, 0};
        x.i = int(src.range(0, n)) - 1;
        x.j = int(src.range(0, n)) - 1;
        q.push_back(x);
    }
    std::vector<P> v = b.variables(x0);
    P sum = b.constant(0, n);
    auto at = [&](const Vec &x) {
        double s = 0;
        for (auto &t : q)
            s += t.c * (t.i < 0 ? 1 : x[t.i]) * (t.j < 0 ? 1 : x[t.j]);
        return s;
    };
    std::string text = "q(x) =";
    for (auto &t : q)
    {
        P term = b.constant(t.c, n);
        text += " + " + sci(t.c);
        for (int i : {t.i, t.j})
            if (i >= 0)
            {
                term = b.bin(MUL, *term, *v[i], false);
                text += "*x" + std::to_string(i);
            }
        sum = b.bin(ADD, *sum, *term, false);
    }
    Vec x1 = x0;
    for (int i = 0; i < n; i++)
        x1[i] += d[i];
    ctx.log(show(b, n) + " " + text + " at " + ref::str(x0) + " step " + ref::str(d));
    const double have = b.eval(*sum, d), want = at(x1);
    // all quantities are small dyadic rationals: no rounding at all
    if (have != want)
        ctx.fail("eval = " + sci(have) + ", the quadratic function is " + sci(want));
    ctx.nontrivial = n >= 2;
}

// -------------------------------------------------------------------- C12
PROPERTY(C12, comparisons, 6, "the compared numbers carry different derivatives", 120)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 8);
    auto any = [&]() {
        double x = gen_any(src);
        if (is_float(b))
            x = std::fabs(x) > 3e38 ? (x < 0 ? -INFINITY : INFINITY) : round_to(b, x);
        return x;
    };
    const double x = any(), y = src.chance(35) ? x : any();
    Vec d1 = gen_data(src, b, n, 0), d2 = gen_data(src, b, b.dynamic() && src.chance(20) ? n + 1 : n, 0);
    d1[0] = x;
    d2[0] = y;
    const P a = b.create(d1), c = b.create(d2);
    ctx.log(show(b, n) + " compare " + brief(d1) + " with " + brief(d2));
    ctx.label(x != x || y != y ? "nan" : x == y ? "equal values" : "different values");
    for (int o = 0; o < C_COUNT; o++)
    {
        bool want = false;
        switch (C(o))
        {
        case EQ: want = x == y; break;
        case NE: want = x != y; break;
        case LT: want = x < y; break;
        case GT: want = x > y; break;
        case LE: want = x <= y; break;
        default: want = x >= y; break;
        }
        const std::string w = sci(x) + " " + C_NAME[o] + " " + sci(y);
        ctx.require(b.cmp(C(o), *a, *c) == want, w + " between numbers");
        ctx.require(b.cmp_ds(C(o), *a, y) == want, w + " with the scalar on the right");
        ctx.require(b.cmp_sd(C(o), x, *c) == want, w + " with the scalar on the left");
    }
    check_same(ctx, b.data(*a), d1, "left operand after comparing");
    check_same(ctx, b.data(*c), d2, "right operand after comparing");
    ctx.nontrivial = !std::equal(d1.begin() + 1, d1.end(), d2.begin() + 1, d2.end());
}
PROPERTY(C12, absolute, 2, "derivatives present", 120)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 8);
    double x = gen_any(src);
    if (is_float(b))
        x = std::fabs(x) > 3e38 ? (x < 0 ? -INFINITY : INFINITY) : round_to(b, x);
    Vec d = gen_data(src, b, n, 0, &ctx.nontrivial);
    d[0] = x;
    if (x == 0) // not differentiable: only the value is defined
        for (std::size_t i = 1; i < d.size(); i++)
            d[i] = 0;
    ctx.log(show(b, n) + " abs of " + brief(d));
    Vec want = d;
    if (x < 0)
        for (double &v : want)
            v = -v;
    const P a = b.create(d);
    check_same(ctx, b.data(*b.un(ABS, *a, src.chance(50))), want, "abs");
    check_same(ctx, b.data(*a), d, "operand of abs");
    ctx.nontrivial = ctx.nontrivial && n > 0;
}

// -------------------------------------------------------------------- C13
// a size for which (n + 1) (n + 2) / 2 overflows to a small number
static long wrapping_size(Src &src)
{
    const unsigned long c = 2 * src.range(2, 5000);
    unsigned long x = 0;
    for (int bit = 0; bit < 64; bit++)
        if ((x * x + x - c) >> bit & 1)
            x |= 1ul << bit;
    if (x >> 63)
        x = -1 - x;
    if (x < 100000) // c / 2 is the length of a valid number
        return -7;
    return long(x - 1);
}
static void invalid(Src &src, Ctx &ctx, const Backend &b, bool eigen)
{
    const bool dyn = b.dynamic();
    const int n = pick_size(src, b, 10);
    const double f = gen_small(src);
    // a number of variables that differs from n, often by one
    auto other = [&]() {
        long m = src.chance(50) ? n + 1 : src.range(0, 12);
        return m == n ? n + 2 : m;
    };
    struct Op { const char *what; bool dynamic_only; };
    static const Op OPS[] = {{"operator", true}, {"compound", true}, {"atan2/hypot", true}, {"hypot3", true}, {"eval", true}, {"pad_left", true}, {"pad_right", true}, {"resize", true}, {"create", true}, {"set_hm", true}, {"from_arrays", true}, {"set_adata", true}, {"data_ctor", true}, {"zero", false}, {"empty", false}, {"constant", false}, {"variable", false}, {"init_list", false}, {"size_from_data_length", false}};
    const int k = dyn ? int(src.range(0, 18)) : int(src.range(13, 18));
    const std::string op = OPS[k].what;
    ctx.label(op);
    const Vec d1 = gen_data(src, b, n, f);
    const P a = b.create(d1);
    std::vector<P> also;
    std::vector<Vec> also_d;
    auto number = [&](long m) -> const Obj & {
        also_d.push_back(gen_data(src, b, int(m), 1.5));
        also.push_back(b.create(also_d.back()));
        return *also.back();
    };
    std::string what;
    bool rejected = false;
    if (op == "operator" || op == "atan2/hypot")
    {
        const B o = B(op == "operator" ? src.range(0, 3) : src.range(4, 5));
        const Obj &c = number(other());
        const bool fr = src.chance(50), swap = src.chance(50);
        what = std::string(B_NAME[o]) + " with a number of size " + std::to_string(b.size(c)) + (swap ? " on the left" : " on the right");
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { swap ? b.bin(o, c, *a, fr) : b.bin(o, *a, c, fr); });
    }
    else if (op == "compound")
    {
        const B o = B(src.range(0, 3));
        const Obj &c = number(other());
        what = std::string(B_NAME[o]) + "= with a number of size " + std::to_string(b.size(c));
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { b.ip(o, *a, c); });
    }
    else if (op == "hypot3")
    {
        const int which = int(src.range(1, 6)); // bit set: argument has the other size
        const long m = other();
        const Obj &x = number(which & 1 ? m : n), &y = number(which & 2 ? m : n), &z = number(which & 4 ? m : n);
        const bool fr = src.chance(50);
        what = "hypot of sizes " + std::to_string(b.size(x)) + ", " + std::to_string(b.size(y)) + ", " + std::to_string(b.size(z));
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { b.hypot3(x, y, z, fr); });
    }
    else if (op == "eval")
    {
        const long m = other();
        what = "eval with " + std::to_string(m) + " steps";
        ctx.log(show(b, n) + " " + what);
        if (!eigen)
            ctx.discard();
        rejected = throws([&]() { b.eval(*a, Vec(m, 1.0)); });
    }
    else if (op == "pad_left" || op == "pad_right")
    {
        if (n == 0)
            ctx.discard();
        const long m = b.order == 2 && src.chance(15) ? wrapping_size(src) : src.chance(30) ? -src.range(1, 5) : src.range(0, n - 1);
        what = op + "(" + std::to_string(m) + ")";
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { op == "pad_left" ? b.pad_left(*a, m) : b.pad_right(*a, m); });
    }
    else if (op == "resize")
    {
        const long m = b.order == 2 && src.chance(25) ? wrapping_size(src) : -src.range(1, 100);
        what = "resize(" + std::to_string(m) + ")";
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { b.resize(*a, m); });
    }
    else if (op == "create" || op == "size_from_data_length")
    {
        long len = src.chance(60) ? src.range(0, 70) : src.range(0, 2000000);
        if (b.order == 1)
            len = 0;
        else
        {
            long s = 0;
            while ((s + 1) * (s + 2) / 2 < len)
                s++;
            if ((s + 1) * (s + 2) / 2 == len)
                len++; // next to a valid length ...
            if (len == 3)
                len = 2;
        }
        if (op == "create" && len > 500)
            len = 2;
        if (op != "create" && src.chance(20))
            len = -src.range(1, 50);
        what = op + " with length " + std::to_string(len);
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { op == "create" ? (void)b.create(Vec(len, 1.0)) : (void)b.size_from_data_length(len); });
    }
    else if (op == "set_hm" || op == "from_arrays")
    {
        if (b.order != 2 || !eigen)
            ctx.discard();
        const long r = src.chance(50) ? n : other(), c = r == n || src.chance(50) ? other() : n;
        what = op + " with a matrix " + std::to_string(r) + " x " + std::to_string(c);
        ctx.log(show(b, n) + " " + what);
        const Vec m(r * c, 2.0), g(n, 1.0);
        rejected = throws([&]() { op == "set_hm" ? b.set_hm(*a, m, r, c) : (void)b.from_arrays(1.0, g, m, r, c); });
    }
    else if (op == "set_adata")
    {
        if (!eigen)
            ctx.discard();
        const long m = long(b.len(other()));
        what = "set_adata with length " + std::to_string(m);
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { b.set_adata(*a, Vec(m, 1.0)); });
    }
    else if (op == "data_ctor")
    {
        const bool fits = src.chance(30); // the right number of entries for a size that is negative
        const long m = fits ? (b.order == 1 ? 0 : -src.range(1, 2)) : other();
        const long len = fits ? 0 : src.chance(50) ? long(b.len(n)) : src.range(0, 40);
        if (!fits && long(b.len(m)) == len)
            ctx.discard();
        what = "construction from " + std::to_string(len) + " entries and size " + std::to_string(fits && b.order == 1 ? -1 : m);
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { b.data_ctor(Vec(len, 1.0), fits && b.order == 1 ? -1 : m); });
    }
    else if (op == "zero" || op == "empty" || op == "constant")
    {
        const long m = dyn ? (b.order == 2 && src.chance(25) ? wrapping_size(src) : -src.range(1, 100)) : (src.chance(20) ? -src.range(1, 5) : other());
        what = op + "(" + std::to_string(m) + ")";
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { op == "zero" ? (void)b.zero(m) : op == "empty" ? (void)b.empty(m) : (void)b.constant(1.0, m); });
    }
    else if (op == "variable")
    {
        const int form = int(src.range(0, 2));
        long i = src.chance(50) ? n + src.range(0, 5) : -src.range(1, 5), m = n;
        if (form == 1 && !dyn && n > 0)
        {
            // right index, wrong size
            m = other();
            i = src.range(0, n - 1);
        }
        what = "variable(" + std::to_string(i) + ", f" + (form == 2 && !dyn ? ")" : ", " + std::to_string(m) + ")");
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { form == 2 && !dyn ? (void)b.variable(i, 1.0) : (void)b.variable(i, 1.0, m); });
    }
    else // init_list
    {
        static const int LEN[] = {1, 2, 3, 4, 5, 6, 10, 15};
        long len = LEN[src.raw() % 8];
        if (dyn && (b.order == 1 || len == 1 || len == 3 || len == 6 || len >= 10))
            len = b.order == 1 ? -1 : 5;
        if (len < 0 || (!dyn && len == long(b.len(n))))
            ctx.discard();
        what = "initializer list of length " + std::to_string(len);
        ctx.log(show(b, n) + " " + what);
        rejected = throws([&]() { b.init_list(Vec(len, 1.0)); });
    }
    ctx.require(rejected, what + " is accepted");
    ctx.require(b.size(*a) == n, what + " changed the size of its operand");
    check_same(ctx, b.data(*a), d1, "operand after " + what);
    for (std::size_t i = 0; i < also.size(); i++)
        check_same(ctx, b.data(*also[i]), also_d[i], "operand after " + what);
    ctx.nontrivial = true;
}
PROPERTY(C13, invalid, 6, "every rejected call counts", 120)
{
    invalid(src, ctx, pick_backend(src), true);
}
PROPERTY(C13, invalid_dynamic, 4, "every rejected call counts", 120)
{
    invalid(src, ctx, pick_backend_if(src, is_dyn), true);
}
PROPERTY(C24, invalid, 20, "every rejected call counts", 120)
{
    static const char *CONF[] = {"ndebug", "noeigen", "clang"};
    const std::string conf = CONF[src.raw() % 3];
    ctx.log("configuration " + conf);
    invalid(src, ctx, pick_backend_if(src, [](const Backend &) { return true; }, conf), conf != "noeigen");
}

// other properties under other builds
PROPERTY(C24, elsewhere, 60, "the rule of the property that is run", 500)
{
    static const char *CONF[] = {"ndebug", "clang", "noexc", "noeigen"};
    struct Sub { const char *id, *name; bool eigen; };
    static const Sub SUBS[] = {
        {"C01", "functions", false}, {"C01", "power", false}, {"C02", "jets", false}, {"C02", "scalars", false}, {"C03", "compound", false},
        {"C03", "sequence", false}, {"C04", "two_arguments", false}, {"C04", "three_arguments", false}, {"C07", "functions", false},
        {"C07", "operators", false}, {"C08", "writes", true}, {"C08", "writes", true}, {"C08", "arrays", true}, {"C09", "constructors", false},
        {"C10", "histories", false}, {"C10", "commutes", false}, {"C11", "quadratic", true}, {"C12", "comparisons", false},
        {"C12", "absolute", false}, {"C17", "pool", false}, {"C25", "instantiations", false}};
    const std::string conf = CONF[src.raw() % 4];
    const Sub &sub = SUBS[src.raw() % (sizeof SUBS / sizeof *SUBS)];
    if (conf == "noeigen" && sub.eigen)
        ctx.discard();
    ctx.label(conf + " " + sub.id + " " + sub.name);
    ctx.log("configuration " + conf + ", " + sub.id + " " + sub.name);
    struct Guard
    {
        explicit Guard(const std::string &c) { default_config() = c; }
        ~Guard() { default_config() = "default"; }
    } guard(conf);
    for (auto &p : props())
        if (std::string(p.id) == sub.id && std::string(p.name) == sub.name)
        {
            try
            {
                p.fn(src, ctx);
            }
            catch (const Unsupported &)
            {
                ctx.discard(); // an entry point that this build leaves out
            }
            return;
        }
    throw std::logic_error(std::string("harness: no such property ") + sub.id);
}

// -------------------------------------------------------------------- C17
PROPERTY(C17, pool, 5, "six or more steps of at least four kinds", 500)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.eps < 1e-10; });
    const bool dyn = b.dynamic();
    const int slots = 4;
    std::vector<P> v(slots);
    std::vector<Vec> m(slots);
    auto size_of = [&](int i) { return int(b.size(*v[i])); };
    auto fresh = [&](int i, int n) {
        m[i] = gen_data(src, b, n, double(src.range(0, 16) - 8) / 4 + 0.125);
        v[i] = b.create(m[i]);
    };
    auto pick_n = [&]() { return dyn ? int(src.range(0, 5)) : b.ssize; };
    const int n0 = pick_n();
    for (int i = 0; i < slots; i++)
        fresh(i, n0);
    ctx.log(show(b, n0) + " pool of " + std::to_string(slots));
    const int steps = int(src.range(1, 30));
    unsigned kinds = 0;
    for (int t = 0; t < steps && !src.exhausted(); t++)
    {
        const int i = int(src.range(0, slots - 1)), j = int(src.range(0, slots - 1)), k = int(src.range(0, slots - 1));
        const int kind = int(src.range(0, 13));
        const int n = size_of(i);
        std::string what;
        auto s = [](int x) { return "v" + std::to_string(x); };
        ref::J want(0, b.order);
        bool exact = true; // m[i] holds the expectation, otherwise want
        int target = i;
        switch (kind)
        {
        case 0: what = s(i) + " fresh"; fresh(i, pick_n()); break;
        case 1: what = s(i) + " = copy of " + s(j); v[i] = b.clone(*v[j]); m[i] = m[j]; break;
        case 2: case 3: what = s(i) + " = " + s(j); b.assign(*v[i], *v[j]); m[i] = m[j]; break;
        case 4:
            if (i == j)
                continue;
            switch (src.range(0, 2))
            {
            case 0:
                what = s(i) + " = new number moved from " + s(j);
                v[i] = b.move_out(*v[j]);
                m[i] = m[j];
                break;
            case 1:
                what = s(i) + " = move " + s(j);
                b.move_assign(*v[i], *v[j]);
                m[i] = m[j];
                break;
            default:
                what = "swap " + s(i) + " and " + s(j);
                b.swap(*v[i], *v[j]);
                std::swap(m[i], m[j]);
            }
            if (what[0] != 's')
            {
                // the source is given a new value, by assignment to what the move left
                m[j] = gen_data(src, b, pick_n(), double(src.range(0, 16) - 8) / 4 + 0.125);
                if (src.chance(50))
                    b.assign(*v[j], *b.create(m[j]));
                else
                    b.move_assign(*v[j], *b.create(m[j]));
            }
            break;
        case 5: case 6:
        {
            // result into another slot
            const B op = B(src.range(0, 2));
            if (size_of(j) != size_of(k))
                continue;
            what = s(i) + " = " + s(j) + " " + B_NAME[op] + " " + s(k);
            want = ref::bin(op, ref::from_data(m[j], size_of(j), b.order), ref::from_data(m[k], size_of(k), b.order), b.eps);
            if (src.chance(50))
                v[i] = b.bin(op, *v[j], *v[k], false);
            else
                b.assign(*v[i], *b.bin(op, *v[j], *v[k], false));
            exact = false;
            break;
        }
        case 7: case 8:
        {
            const B op = B(src.range(0, 3));
            if (n != size_of(j) || (op == DIV && std::fabs(m[j][0]) < 0.01))
                continue;
            what = s(i) + " " + B_NAME[op] + "= " + s(j);
            want = ref::bin(op, ref::from_data(m[i], n, b.order), ref::from_data(m[j], n, b.order), b.eps);
            b.ip(op, *v[i], *v[j]);
            exact = false;
            break;
        }
        case 9:
        {
            const B op = B(src.range(0, 3));
            const double x = double(src.range(1, 8)) / 2;
            what = s(i) + " " + B_NAME[op] + "= " + sci(x);
            want = ref::bin_ds(op, ref::from_data(m[i], n, b.order), x, b.eps);
            b.ip_s(op, *v[i], x);
            exact = false;
            break;
        }
        case 10:
        {
            const double x = double(src.range(0, 16) - 8);
            const long e = src.range(0, long(m[i].size()) - 1);
            what = s(i) + " entry " + std::to_string(e) + " = " + sci(x);
            if (e == 0)
                b.set_f(*v[i], x, src.chance(50));
            else if (e <= n)
                b.set_g(*v[i], e - 1, x, src.chance(50));
            else
                b.set_h(*v[i], e - 1 - n, x, src.chance(50));
            m[i][e] = x;
            break;
        }
        case 11:
            if (!dyn)
                continue;
            {
                const long to = src.range(0, 6);
                what = s(i) + ".resize(" + std::to_string(to) + ")";
                b.resize(*v[i], to);
                m[i] = remap(b, m[i], n, to, 0);
            }
            break;
        case 12:
            if (!dyn)
                continue;
            {
                const long to = size_of(j) + src.range(0, 3);
                if (to > 8)
                    continue;
                const bool left = src.chance(50);
                what = s(i) + " = " + s(j) + (left ? ".pad_left(" : ".pad_right(") + std::to_string(to) + ")";
                const Vec mj = m[j];
                const int nj = size_of(j);
                b.assign(*v[i], left ? *b.pad_left(*v[j], to) : *b.pad_right(*v[j], to));
                m[i] = remap(b, mj, nj, to, left ? to - nj : 0);
            }
            break;
        default:
        {
            const U op = src.chance(50) ? NEG : SIN;
            what = s(i) + " = " + U_NAME[op] + "(" + s(j) + ")";
            want = ref::un(op, ref::from_data(m[j], size_of(j), b.order), b.eps);
            b.assign(*v[i], *b.un(op, *v[j], false));
            exact = false;
        }
        }
        ctx.log(what);
        kinds |= 1u << kind;
        if (!exact)
        {
            check_jet(ctx, b, *v[target], want, what);
            m[target] = b.data(*v[target]);
            double mx = 0;
            for (double x : m[target])
                mx = std::max(mx, std::fabs(x));
            if (!(mx < 1e15))
            {
                fresh(target, pick_n());
                ctx.log(s(target) + " fresh (too large)");
            }
        }
        for (int q = 0; q < slots; q++)
        {
            ctx.require(b.data_length_from_size(b.size(*v[q])) == long(m[q].size()), what + ": size of " + s(q));
            check_same(ctx, b.data(*v[q]), m[q], what + ": " + s(q));
        }
    }
    ctx.nontrivial = steps >= 6 && __builtin_popcount(kinds) >= 4;
}
} // namespace hv
