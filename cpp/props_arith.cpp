// C01 .. C07: derivatives of functions and operators, value channel
#include "harness.hpp"
#include <algorithm>
#include <cmath>

namespace hv
{
static double kind_eps(const Backend &b) { return b.eps; }

static std::string jet_text(const Vec &d) { return ref::str(d.size() <= 40 ? d : Vec(d.begin(), d.begin() + 40)); }

// -------------------------------------------------------------------- C01
PROPERTY(C01, functions, 8, "at least one variable, and a dense or sparse (not all zero) gradient and, for order 2, Hessian", 120)
{
    const Backend &b = pick_backend(src);
    const U op = U(src.range(0, U_COUNT - 1));
    const int n = pick_size(src, b);
    const double x = gen_arg(src, op, b);
    const Vec d = gen_data(src, b, n, x, &ctx.nontrivial);
    const bool free = src.chance(50);
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " " + U_NAME[op] + (free ? " (free function)" : "") + " of " + jet_text(d));
    ctx.label(U_NAME[op]);
    const P a = b.create(d);
    const P r = b.un(op, *a, free);
    const ref::J ja = ref::from_data(b.data(*a), n, b.order);
    if (!ref::in_domain(op, ja.f))
        ctx.discard();
    check_jet(ctx, b, *r, ref::un(op, ja, kind_eps(b)), U_NAME[op]);
    check_same(ctx, b.data(*a), d, "operand after the call");
}
PROPERTY(C01, power, 3, "at least one variable and non-zero derivatives", 120)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b);
    const PowArg pa = gen_pow(src, b);
    const Vec d = gen_data(src, b, n, pa.x, &ctx.nontrivial);
    const bool integer = pa.b == std::floor(pa.b);
    const int form = int(src.range(0, integer ? 2 : 1));
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " pow form " + std::to_string(form) + " exponent " + sci(pa.b) + " of " + jet_text(d));
    ctx.label(integer ? "integer exponent" : "real exponent");
    ctx.label(pa.x < 0 ? "negative base" : pa.x == 0 ? "zero base" : "positive base");
    const P a = b.create(d);
    const P r = b.pow(*a, pa.b, form);
    check_jet(ctx, b, *r, ref::pow(ref::from_data(b.data(*a), n, b.order), pa.b, kind_eps(b)), "pow");
    check_same(ctx, b.data(*a), d, "operand after the call");
}
PROPERTY(C01, log_base, 1, "at least one variable and non-zero derivatives", 120)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b);
    const double x = gen_arg(src, LOG, b);
    double base = round_to(b, gen_log_base(src));
    const Vec d = gen_data(src, b, n, x, &ctx.nontrivial);
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " log base " + sci(base) + " of " + jet_text(d));
    const P a = b.create(d);
    const P r = b.log_base(*a, base);
    check_jet(ctx, b, *r, ref::log_base(ref::from_data(b.data(*a), n, b.order), base, kind_eps(b)), "log(base)");
}

// -------------------------------------------------------------------- C02
static double nonzero(Src &s, const Backend &b)
{
    double x = round_to(b, gen_wide(s, wide_m(b)));
    return x == 0 ? 1.0 : x;
}
PROPERTY(C02, jets, 5, "both operands carry derivatives", 160)
{
    const Backend &b = pick_backend(src);
    const B op = B(src.range(0, 3));
    const int n = pick_size(src, b);
    bool da, db;
    const Vec d1 = gen_data(src, b, n, gen_wide(src, wide_m(b)), &da);
    const Vec d2 = gen_data(src, b, n, op == DIV ? nonzero(src, b) : gen_wide(src, wide_m(b)), &db);
    ctx.nontrivial = da && db && n > 0;
    ctx.log(show(b, n) + " " + jet_text(d1) + " " + B_NAME[op] + " " + jet_text(d2));
    ctx.label(B_NAME[op]);
    const bool self = src.chance(10) && (op != DIV || d1[0] != 0);
    const P a = b.create(d1), c = b.create(d2);
    const P r = b.bin(op, *a, self ? *a : *c, false);
    const ref::J ja = ref::from_data(b.data(*a), n, b.order), jc = ref::from_data(b.data(*c), n, b.order);
    check_jet(ctx, b, *r, ref::bin(op, ja, self ? ja : jc, kind_eps(b)), std::string("operator ") + B_NAME[op]);
    check_same(ctx, b.data(*a), d1, "left operand after the call");
    check_same(ctx, b.data(*c), d2, "right operand after the call");
}
PROPERTY(C02, scalars, 4, "the number operand carries derivatives", 120)
{
    const Backend &b = pick_backend(src);
    const B op = B(src.range(0, 3));
    const bool left = src.chance(50); // scalar on the left
    const int n = pick_size(src, b);
    const Vec d = gen_data(src, b, n, op == DIV && left ? nonzero(src, b) : gen_wide(src, wide_m(b)), &ctx.nontrivial);
    const double s = op == DIV && !left ? nonzero(src, b) : round_to(b, gen_wide(src, wide_m(b)));
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " " + (left ? sci(s) + " " + B_NAME[op] + " " + jet_text(d) : jet_text(d) + " " + B_NAME[op] + " " + sci(s)));
    ctx.label(std::string(left ? "scalar " : "jet ") + B_NAME[op]);
    const P a = b.create(d);
    const ref::J ja = ref::from_data(b.data(*a), n, b.order);
    const P r = left ? b.bin_sd(op, s, *a) : b.bin_ds(op, *a, s);
    check_jet(ctx, b, *r, left ? ref::bin_sd(op, s, ja, kind_eps(b)) : ref::bin_ds(op, ja, s, kind_eps(b)), std::string("operator ") + B_NAME[op] + " with a scalar");
    check_same(ctx, b.data(*a), d, "operand after the call");
}
PROPERTY(C02, negate, 1, "the operand carries derivatives", 80)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b);
    const Vec d = gen_data(src, b, n, gen_wide(src, wide_m(b)), &ctx.nontrivial);
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " - " + jet_text(d));
    const P a = b.create(d);
    const P r = b.un(NEG, *a, false);
    Vec want = d;
    for (double &x : want)
        x = -x;
    check_same(ctx, b.data(*r), want, "negation");
}

// -------------------------------------------------------------------- C03
PROPERTY(C03, compound, 6, "the target carries derivatives and the operand is a number with derivatives, the target itself, or a scalar", 160)
{
    const Backend &b = pick_backend(src);
    const B op = B(src.range(0, 3));
    const int kind = int(src.range(0, 4)); // 0,1 number; 2 itself; 3 scalar; 4 own entry
    const int n = pick_size(src, b);
    bool da, db = true;
    const bool need = op == DIV && (kind == 2 || kind == 4);
    Vec d1 = gen_data(src, b, n, need ? nonzero(src, b) : gen_wide(src, wide_m(b)), &da);
    ctx.label(std::string(B_NAME[op]) + "= " + (kind <= 1 ? "number" : kind == 2 ? "itself" : kind == 3 ? "scalar" : "own entry"));
    const P a = b.create(d1);
    const ref::J ja = ref::from_data(b.data(*a), n, b.order);
    const double eps = kind_eps(b);
    if (kind <= 1)
    {
        const Vec d2 = gen_data(src, b, n, op == DIV ? nonzero(src, b) : gen_wide(src, wide_m(b)), &db);
        ctx.log(show(b, n) + " " + jet_text(d1) + " " + B_NAME[op] + "= " + jet_text(d2));
        const P c = b.create(d2);
        b.ip(op, *a, *c);
        check_jet(ctx, b, *a, ref::bin(op, ja, ref::from_data(d2, n, b.order), eps), std::string(B_NAME[op]) + "=");
        check_same(ctx, b.data(*c), d2, "right operand after the call");
    }
    else if (kind == 2)
    {
        ctx.log(show(b, n) + " a = " + jet_text(d1) + "; a " + B_NAME[op] + "= a");
        b.ip(op, *a, *a);
        check_jet(ctx, b, *a, ref::bin(op, ja, ja, eps), std::string("a ") + B_NAME[op] + "= a");
    }
    else if (kind == 3)
    {
        const double s = op == DIV ? nonzero(src, b) : round_to(b, gen_wide(src, wide_m(b)));
        ctx.log(show(b, n) + " " + jet_text(d1) + " " + B_NAME[op] + "= " + sci(s));
        b.ip_s(op, *a, s);
        check_jet(ctx, b, *a, ref::bin_ds(op, ja, s, eps), std::string(B_NAME[op]) + "= scalar");
    }
    else
    {
        const long k = src.range(0, n);
        double s = d1[std::size_t(k)];
        if (op == DIV && s == 0)
            ctx.discard();
        ctx.log(show(b, n) + " a = " + jet_text(d1) + "; a " + B_NAME[op] + "= " + (k ? "a.g(" + std::to_string(k - 1) + ")" : "a.f()"));
        b.ip_own(op, *a, k);
        check_jet(ctx, b, *a, ref::bin_ds(op, ja, s, eps), std::string(B_NAME[op]) + "= own entry");
    }
    ctx.nontrivial = da && db && n > 0;
}
// a sequence of compound assignments equals the same sequence of plain operators
PROPERTY(C03, sequence, 3, "three or more steps on numbers with derivatives", 200)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.eps < 1e-10; });
    const int n = pick_size(src, b, 12);
    bool dense;
    auto val = [&]() { return double(src.range(1, 30)) / 10 * (src.chance(40) ? -1 : 1); };
    P acc = b.create(gen_data(src, b, n, val(), &dense));
    ref::J m = ref::from_data(b.data(*acc), n, b.order);
    const int steps = int(src.range(1, 8));
    ctx.log(show(b, n) + " a = " + jet_text(b.data(*acc)));
    for (int i = 0; i < steps; i++)
    {
        const B op = B(src.range(0, 3));
        if (src.chance(20))
        {
            if (op == DIV && std::fabs(double(m.f)) < 1e-3)
                continue;
            ctx.log(std::string("a ") + B_NAME[op] + "= a");
            b.ip(op, *acc, *acc);
            m = ref::bin(op, m, m, b.eps);
        }
        else if (src.chance(30))
        {
            const double s = val();
            ctx.log(std::string("a ") + B_NAME[op] + "= " + sci(s));
            b.ip_s(op, *acc, s);
            m = ref::bin_ds(op, m, s, b.eps);
        }
        else
        {
            const P c = b.create(gen_data(src, b, n, val()));
            ctx.log(std::string("a ") + B_NAME[op] + "= " + jet_text(b.data(*c)));
            b.ip(op, *acc, *c);
            m = ref::bin(op, m, ref::from_data(b.data(*c), n, b.order), b.eps);
        }
        if (!ref::usable(m, 1e-6))
            break;
        check_jet(ctx, b, *acc, m, "step " + std::to_string(i + 1));
    }
    ctx.nontrivial = dense && n > 0 && steps >= 3;
}

// -------------------------------------------------------------------- C04
PROPERTY(C04, two_arguments, 4, "both operands carry derivatives", 160)
{
    const Backend &b = pick_backend(src);
    const B op = src.chance(50) ? HYPOT : ATAN2;
    const int n = pick_size(src, b);
    const int m = b.eps > 1e-10 ? 4 : 20;
    bool da, db;
    double x = round_to(b, gen_wide(src, m)), y = round_to(b, gen_wide(src, m));
    if (x == 0 && y == 0)
        x = 1;
    const Vec d1 = gen_data(src, b, n, x, &da), d2 = gen_data(src, b, n, y, &db);
    const bool free = src.chance(50), self = src.chance(8);
    ctx.nontrivial = da && db && n > 0;
    ctx.log(show(b, n) + " " + B_NAME[op] + (free ? " (free function)" : "") + " of " + jet_text(d1) + ", " + (self ? "itself" : jet_text(d2)));
    ctx.label(std::string(B_NAME[op]) + " quadrant " + (x < 0 ? "-" : x > 0 ? "+" : "0") + (y < 0 ? "-" : y > 0 ? "+" : "0"));
    const P a = b.create(d1), c = b.create(d2);
    const ref::J ja = ref::from_data(d1, n, b.order), jc = ref::from_data(d2, n, b.order);
    if (self && x == 0)
        ctx.discard();
    const P r = b.bin(op, *a, self ? *a : *c, free);
    check_jet(ctx, b, *r, ref::bin(op, ja, self ? ja : jc, kind_eps(b)), B_NAME[op]);
    check_same(ctx, b.data(*a), d1, "first operand after the call");
    check_same(ctx, b.data(*c), d2, "second operand after the call");
}
PROPERTY(C04, three_arguments, 3, "all operands carry derivatives", 200)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 16);
    const int m = b.eps > 1e-10 ? 4 : 20;
    bool da, db, dc;
    double x = round_to(b, gen_wide(src, m)), y = round_to(b, gen_wide(src, m)), z = round_to(b, gen_wide(src, m));
    if (x == 0 && y == 0 && z == 0)
        x = 1;
    const Vec d1 = gen_data(src, b, n, x, &da), d2 = gen_data(src, b, n, y, &db), d3 = gen_data(src, b, n, z, &dc);
    const bool free = src.chance(50);
    ctx.nontrivial = da && db && dc && n > 0;
    ctx.log(show(b, n) + " hypot" + (free ? " (free function)" : "") + " of " + jet_text(d1) + ", " + jet_text(d2) + ", " + jet_text(d3));
    const P a = b.create(d1), c = b.create(d2), e = b.create(d3);
    const P r = b.hypot3(*a, *c, *e, free);
    check_jet(ctx, b, *r, ref::hypot3(ref::from_data(d1, n, b.order), ref::from_data(d2, n, b.order), ref::from_data(d3, n, b.order), kind_eps(b)), "hypot");
    check_same(ctx, b.data(*a), d1, "first operand after the call");
    check_same(ctx, b.data(*c), d2, "second operand after the call");
    check_same(ctx, b.data(*e), d3, "third operand after the call");
}

// -------------------------------------------------------------------- C05
// A random program over a growing list of numbers, evaluated by the library and by
// the reference; also through a second instantiation (C06).
namespace
{
struct Program
{
    struct Step
    {
        int kind = 0; // 0 unary 1 binary 2 jet-scalar 3 scalar-jet 4 pow 5 hypot3 6 log base
        int op = 0;
        int a = 0, b = 0, c = 0;
        double s = 0;
        bool free = false;
        int form = 0;
    };
    int n = 0;
    Vec at; // seeds
    std::vector<Step> steps;
};
std::string text(const Program::Step &s)
{
    auto v = [](int i) { return "v" + std::to_string(i); };
    switch (s.kind)
    {
    case 0: return std::string(U_NAME[s.op]) + "(" + v(s.a) + ")";
    case 1: return s.op >= ATAN2 ? std::string(B_NAME[s.op]) + "(" + v(s.a) + ", " + v(s.b) + ")" : v(s.a) + " " + B_NAME[s.op] + " " + v(s.b);
    case 2: return v(s.a) + " " + B_NAME[s.op] + " " + sci(s.s);
    case 3: return sci(s.s) + " " + B_NAME[s.op] + " " + v(s.a);
    case 4: return "pow(" + v(s.a) + ", " + sci(s.s) + ")";
    case 5: return "hypot(" + v(s.a) + ", " + v(s.b) + ", " + v(s.c) + ")";
    default: return "log(" + v(s.a) + ", " + sci(s.s) + ")";
    }
}
P exec(const Backend &b, const std::vector<P> &v, const Program::Step &s)
{
    switch (s.kind)
    {
    case 0: return b.un(U(s.op), *v[s.a], s.free);
    case 1: return b.bin(B(s.op), *v[s.a], *v[s.b], s.free);
    case 2: return b.bin_ds(B(s.op), *v[s.a], s.s);
    case 3: return b.bin_sd(B(s.op), s.s, *v[s.a]);
    case 4: return b.pow(*v[s.a], s.s, s.form);
    case 5: return b.hypot3(*v[s.a], *v[s.b], *v[s.c], s.free);
    default: return b.log_base(*v[s.a], s.s);
    }
}
ref::J exec(const std::vector<ref::J> &v, const Program::Step &s, double eps)
{
    switch (s.kind)
    {
    case 0: return ref::un(U(s.op), v[s.a], eps);
    case 1: return ref::bin(B(s.op), v[s.a], v[s.b], eps);
    case 2: return ref::bin_ds(B(s.op), v[s.a], s.s, eps);
    case 3: return ref::bin_sd(B(s.op), s.s, v[s.a], eps);
    case 4: return ref::pow(v[s.a], s.s, eps);
    case 5: return ref::hypot3(v[s.a], v[s.b], v[s.c], eps);
    default: return ref::log_base(v[s.a], s.s, eps);
    }
}
// the step is safely inside the domain of its function
bool admissible(const std::vector<ref::J> &v, const Program::Step &s)
{
    const double x = double(v[s.a].f), y = double(v[s.b].f), z = double(v[s.c].f);
    const double m = 0.02;
    switch (s.kind)
    {
    case 0:
        switch (U(s.op))
        {
        case RECIP: case CBRT: case ABS: return std::fabs(x) > m;
        case SQRT: case LOG: case LOG2: case LOG10: return x > m;
        case ACOS: case ASIN: case ATANH: return std::fabs(x) < 1 - m;
        case ACOSH: return x > 1 + m;
        case COSH: case SINH: case EXP: case TANH: return std::fabs(x) < 15;
        case TAN: return std::fabs(std::cos(x)) > m;
        default: return std::fabs(x) < 1e6;
        }
    case 1:
        if (s.op == DIV)
            return std::fabs(y) > m;
        if (s.op == HYPOT || s.op == ATAN2)
            return std::hypot(x, y) > m && !(s.op == ATAN2 && x == 0 && y < 0) && !(s.op == ATAN2 && std::fabs(x) < m && y < m);
        return true;
    case 2: return s.op != DIV || s.s != 0;
    case 3: return s.op != DIV || std::fabs(x) > m;
    case 4: return x > m || (s.s == std::floor(s.s) && std::fabs(x) > m);
    case 5: return std::hypot(x, y, z) > m;
    default: return x > m && s.s > 0 && s.s != 1;
    }
}
// returns the reference values; fills prog
std::vector<ref::J> gen_program(Src &src, Program &p, int n, int order, double eps, double rel)
{
    p.n = n;
    std::vector<ref::J> v;
    for (int i = 0; i < n; i++)
    {
        double x = double(src.range(0, 60) - 20) / 10;
        if (src.chance(40))
            x = 4 * src.unit() - 2;
        x = double(float(x));
        p.at.push_back(x);
        ref::J j(n, order);
        j.f = x;
        j.g[i] = 1;
        v.push_back(j);
    }
    const int want = int(src.range(1, 24));
    for (int t = 0; t < want * 3 && int(p.steps.size()) < want && !src.exhausted(); t++)
    {
        Program::Step s;
        static const int KIND[] = {1, 1, 1, 0, 0, 0, 2, 3, 4, 5, 6, 1};
        s.kind = KIND[src.raw() % 12];
        const int m = int(v.size());
        auto ref_to = [&]() { return src.chance(50) ? int(m - 1 - src.range(0, std::min(m - 1, 3))) : int(src.range(0, m - 1)); };
        s.a = ref_to();
        s.b = ref_to();
        s.c = ref_to();
        s.free = src.chance(50);
        switch (s.kind)
        {
        case 0: s.op = int(src.range(0, U_COUNT - 1)); break;
        case 1: s.op = int(src.range(0, B_COUNT - 1)); break;
        case 2: case 3: s.op = int(src.range(0, 3)); s.s = double(float(gen_small(src))); if (std::fabs(s.s) > 1e3 || std::fabs(s.s) < 1e-3) s.s = 0.75; break;
        case 4: s.s = src.chance(50) ? double(src.range(0, 10) - 4) : double(src.range(0, 80) - 40) / 16; s.form = src.chance(50) ? 1 : 0; break;
        case 6: s.s = double(float(gen_log_base(src))); break;
        default: break;
        }
        if (!admissible(v, s))
            continue;
        const ref::J j = exec(v, s, eps);
        double mx = std::fabs(double(j.f));
        for (auto &g : j.g)
            mx = std::max(mx, std::fabs(double(g)));
        for (auto &h : j.H)
            mx = std::max(mx, std::fabs(double(h)));
        if (!(mx < 1e12) || !ref::usable(j, rel))
            continue;
        v.push_back(j);
        p.steps.push_back(s);
    }
    return v;
}
void log_program(Ctx &ctx, const Program &p)
{
    ctx.log("variables at " + ref::str(p.at));
    for (std::size_t i = 0; i < p.steps.size(); i++)
        ctx.log("v" + std::to_string(p.n + i) + " = " + text(p.steps[i]));
}
std::vector<P> run_program(const Backend &b, const Program &p)
{
    std::vector<P> v;
    for (int i = 0; i < p.n; i++)
        v.push_back(b.variable(i, p.at[i], p.n));
    for (auto &s : p.steps)
        v.push_back(exec(b, v, s));
    return v;
}
} // namespace

static void program_on(Src &src, Ctx &ctx, const Backend &b)
{
    const int n = std::max(1, pick_size(src, b, 14));
    if (b.ssize == 0)
        ctx.discard();
    Program p;
    const std::vector<ref::J> want = gen_program(src, p, n, b.order, b.eps, b.eps > 1e-10 ? 1e-2 : 1e-6);
    ctx.log(show(b, n));
    log_program(ctx, p);
    for (auto &s : p.steps)
        ctx.label("kind " + std::to_string(s.kind));
    const std::vector<P> v = run_program(b, p);
    for (std::size_t i = 0; i < v.size(); i++)
        check_jet(ctx, b, *v[i], want[i], "v" + std::to_string(i));
    ctx.nontrivial = p.steps.size() >= 4;
    ctx.label(p.steps.size() >= 10 ? "10 or more steps" : "fewer than 10 steps");
}
PROPERTY(C05, program, 6, "four or more operations", 320)
{
    program_on(src, ctx, pick_backend_if(src, [](const Backend &x) { return x.ssize != 0; }));
}
// derivatives are those of a function of the variables: changing variables linearly
// (x -> x0 + sum of directions) transforms them by the chain rule
PROPERTY(C05, directional, 2, "four or more operations and a direction with two or more non-zero entries", 320)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.ssize != 0 && x.eps < 1e-10; });
    const int n = std::max(1, pick_size(src, b, 10));
    // along a curve x_i(t) = at_i + t * d_i the derivatives of the program with respect
    // to t follow from gradient and Hessian
    const Backend &c = pick_backend_if(src, [&](const Backend &x) { return x.order == b.order && x.eps < 1e-10 && x.dynamic(); });
    Program p;
    const std::vector<ref::J> want = gen_program(src, p, n, b.order, b.eps, 1e-6);
    Vec d;
    int nz = 0;
    for (int i = 0; i < n; i++)
    {
        d.push_back(double(src.range(0, 16) - 8) / 4);
        nz += d.back() != 0;
    }
    ctx.log(show(b, n) + " direction " + ref::str(d));
    log_program(ctx, p);
    const std::vector<P> v = run_program(b, p);
    std::vector<P> w;
    for (int i = 0; i < n; i++)
    {
        Vec one(c.len(1), 0.0);
        one[0] = p.at[i];
        one[1] = d[i];
        w.push_back(c.create(one));
    }
    for (auto &s : p.steps)
        w.push_back(exec(c, w, s));
    for (std::size_t k = 0; k < v.size(); k++)
    {
        const Vec a = b.data(*v[k]), t = c.data(*w[k]);
        const ref::J ja = ref::from_data(a, n, b.order);
        double g = 0, eg = 0, h = 0, eh = 0;
        for (int i = 0; i < n; i++)
        {
            g += double(ja.g[i]) * d[i];
            eg += (want[k].eg[i] * 2 + 1e-14 * std::fabs(double(ja.g[i]))) * std::fabs(d[i]);
            if (b.order == 2)
                for (int j = 0; j < n; j++)
                {
                    h += double(ja.h(i, j)) * d[i] * d[j];
                    eh += (want[k].eH[i * n + j] * 2 + 1e-14 * std::fabs(double(ja.h(i, j)))) * std::fabs(d[i] * d[j]);
                }
        }
        // the error of the run along the curve is not larger in kind: double the bound
        // and add the same relative to the largest term
        if (!(std::fabs(g - t[1]) <= 4 * eg + 1e-9 * (1 + std::fabs(g))))
            ctx.fail("v" + std::to_string(k) + ": directional derivative " + sci(t[1]) + " but gradient . direction = " + sci(g));
        if (b.order == 2 && !(std::fabs(h - t[2]) <= 4 * eh + 1e-7 * (1 + std::fabs(h) + std::fabs(g))))
            ctx.fail("v" + std::to_string(k) + ": second directional derivative " + sci(t[2]) + " but direction . Hessian . direction = " + sci(h));
    }
    ctx.nontrivial = p.steps.size() >= 4 && nz >= 2;
}

// -------------------------------------------------------------------- C06
PROPERTY(C06, instantiations, 6, "four or more operations evaluated by two different instantiations", 320)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.ssize != 0; });
    const int n = std::max(1, pick_size(src, b, 16));
    const Backend &c = pick_backend_if(src, [&](const Backend &x) { return &x != &b && (x.ssize == n || x.dynamic()); });
    Program p;
    const double eps = std::max(b.eps, c.eps);
    const std::vector<ref::J> want = gen_program(src, p, n, 2, eps, eps > 1e-10 ? 1e-2 : 1e-6);
    ctx.log(show(b, n) + " against " + c.name);
    ctx.label(std::string(b.dynamic() != c.dynamic() ? "static/dynamic " : "") + (b.order != c.order ? "order " : "") + (b.eps != c.eps ? "scalar type" : ""));
    log_program(ctx, p);
    const std::vector<P> v = run_program(b, p), w = run_program(c, p);
    for (std::size_t i = 0; i < v.size(); i++)
    {
        const Vec x = b.data(*v[i]), y = c.data(*w[i]);
        if (long(x.size()) != long(b.len(n)) || long(y.size()) != long(c.len(n)))
            ctx.fail("v" + std::to_string(i) + ": data length");
        auto near = [&](double p1, double p2, double e) { return std::fabs(p1 - p2) <= 2 * e + floor_of(b) + floor_of(c); };
        if (!near(x[0], y[0], want[i].ef))
            ctx.fail("v" + std::to_string(i) + ": value " + sci(x[0]) + " and " + sci(y[0]));
        for (int k = 0; k < n; k++)
            if (!near(x[1 + k], y[1 + k], want[i].eg[k]))
                ctx.fail("v" + std::to_string(i) + ": derivative " + std::to_string(k) + ": " + sci(x[1 + k]) + " and " + sci(y[1 + k]));
        if (b.order == 2 && c.order == 2)
        {
            std::size_t q = 1 + n;
            for (int k = 0; k < n; k++)
                for (int l = k; l < n; l++, q++)
                    if (!near(x[q], y[q], want[i].eH[k * n + l]))
                        ctx.fail("v" + std::to_string(i) + ": second derivative " + std::to_string(k) + "," + std::to_string(l) + ": " + sci(x[q]) + " and " + sci(y[q]));
        }
    }
    ctx.nontrivial = p.steps.size() >= 4;
}

// -------------------------------------------------------------------- C07
static double plain(U op, double x, bool fl)
{
    switch (op)
    {
    case NEG: return -x;
    case RECIP: return fl ? double(1 / float(x)) : 1 / x;
    case ABS: return x < 0 ? -x : x;
    default: break;
    }
#define HV_F(E, fn) case E: return fl ? double(std::fn(float(x))) : std::fn(x);
    switch (op)
    {
    HV_F(SQRT, sqrt)
    HV_F(CBRT, cbrt)
    HV_F(COS, cos)
    HV_F(SIN, sin)
    HV_F(TAN, tan)
    HV_F(ACOS, acos)
    HV_F(ASIN, asin)
    HV_F(ATAN, atan)
    HV_F(COSH, cosh)
    HV_F(SINH, sinh)
    HV_F(TANH, tanh)
    HV_F(ACOSH, acosh)
    HV_F(ASINH, asinh)
    HV_F(ATANH, atanh)
    HV_F(EXP, exp)
    HV_F(LOG, log)
    HV_F(LOG2, log2)
    HV_F(LOG10, log10)
    default: return 0;
    }
#undef HV_F
}
// equal up to a few units, with the same class (nan, infinity)
static bool agrees(double a, double b, double eps)
{
    if (a != a || b != b)
        return a != a && b != b;
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= 8 * eps * std::max(std::fabs(a), std::fabs(b)) + (eps > 1e-10 ? 1e-37 : 1e-306);
}
static bool dbl(const Backend &x) { return x.name.find("long double") == std::string::npos; }
PROPERTY(C07, functions, 4, "derivatives present, any value including infinities, nan and extremes", 160)
{
    const Backend &b = pick_backend_if(src, dbl);
    const bool fl = b.eps > 1e-10;
    const int n = pick_size(src, b, 12);
    const U op = U(src.range(0, U_COUNT - 1));
    double x = src.chance(50) ? gen_any(src) : gen_arg(src, op, b);
    if (fl)
        x = std::fabs(x) > 3e38 ? (x < 0 ? -INFINITY : INFINITY) : double(float(x));
    Vec d = gen_data(src, b, n, 1, &ctx.nontrivial);
    d[0] = x;
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " " + U_NAME[op] + " at " + sci(x) + " of " + jet_text(d));
    ctx.label(std::isnan(x) ? "nan" : std::isinf(x) ? "infinite" : "finite");
    const P a = b.create(d), k = b.constant(x, n);
    const double have = b.f(*b.un(op, *a, src.chance(50)), true), con = b.f(*b.un(op, *k, false), true), want = plain(op, x, fl);
    if (!same_value(have, con))
        ctx.fail("value " + sci(have) + " depends on the derivatives: " + sci(con) + " for a constant");
    if (!agrees(have, want, fl ? 6e-8 : 1.2e-16))
        ctx.fail("value " + sci(have) + ", the function of the plain number gives " + sci(want));
}
PROPERTY(C07, operators, 4, "derivatives present, any values including infinities, nan and extremes", 200)
{
    const Backend &b = pick_backend_if(src, dbl);
    const bool fl = b.eps > 1e-10;
    const int n = pick_size(src, b, 12);
    const B op = B(src.range(0, B_COUNT - 1));
    const int form = int(src.range(0, op <= DIV ? 3 : 0)); // 0 jets, 1 jet-scalar, 2 scalar-jet, 3 in place
    auto any = [&]() {
        double x = src.chance(40) ? gen_any(src) : gen_wide(src, 5);
        if (fl)
            x = std::fabs(x) > 3e38 ? (x < 0 ? -INFINITY : INFINITY) : double(float(x));
        return x;
    };
    double x = any(), y = any();
    // quotients may be formed with the reciprocal: stay where it is a normal number
    if (op == DIV && y != 0 && std::isfinite(y) && (std::fabs(y) > (fl ? 1e30 : 1e300) || std::fabs(y) < (fl ? 1e-30 : 1e-300)))
        y = 2;
    if (op == DIV && (y == 0 || !std::isfinite(x) || !std::isfinite(y) || std::fabs(x) > (fl ? 1e30 : 1e300)))
    {
        // 0 * infinity of the reciprocal form: only the classes of non-zero by zero etc.
        x = std::isfinite(x) && std::fabs(x) < (fl ? 1e30 : 1e300) ? x : 3;
        if (!std::isfinite(y))
            y = std::isnan(y) ? y : 5;
        if (y == 0 && x == 0)
            x = 1;
    }
    bool da, db;
    Vec d1 = gen_data(src, b, n, 1, &da), d2 = gen_data(src, b, n, 1, &db);
    d1[0] = x;
    d2[0] = y;
    ctx.nontrivial = da && n > 0;
    ctx.log(show(b, n) + " form " + std::to_string(form) + " " + B_NAME[op] + " of " + jet_text(d1) + ", " + jet_text(d2));
    P a = b.create(d1);
    const P c = b.create(d2), ka = b.constant(x, n), kc = b.constant(y, n);
    double have, con;
    if (form == 1)
        have = b.f(*b.bin_ds(op, *a, y), true), con = b.f(*b.bin_ds(op, *ka, y), true);
    else if (form == 2)
        have = b.f(*b.bin_sd(op, x, *c), true), con = b.f(*b.bin_sd(op, x, *kc), true);
    else
    {
        con = b.f(*b.bin(op, *ka, *kc, false), true);
        if (form == 3)
        {
            const P k2 = b.clone(*ka);
            b.ip(op, *k2, *kc);
            con = b.f(*k2, true);
            b.ip(op, *a, *c);
            have = b.f(*a, true);
        }
        else
            have = b.f(*b.bin(op, *a, *c, src.chance(50)), true);
    }
    if (!same_value(have, con))
        ctx.fail("value " + sci(have) + " depends on the derivatives: " + sci(con) + " for constants");
    double want;
    const float fx = float(x), fy = float(y);
    switch (op)
    {
    case ADD: want = fl ? double(fx + fy) : x + y; break;
    case SUB: want = fl ? double(fx - fy) : x - y; break;
    case MUL: want = fl ? double(fx * fy) : x * y; break;
    case DIV: want = fl ? double(fx / fy) : x / y; break;
    case ATAN2: want = fl ? double(std::atan2(fx, fy)) : std::atan2(x, y); break;
    default: want = fl ? double(std::hypot(fx, fy)) : std::hypot(x, y); break;
    }
    if (!agrees(have, want, fl ? 6e-8 : 1.2e-16))
        ctx.fail("value " + sci(have) + ", plain arithmetic gives " + sci(want));
}
PROPERTY(C07, power_and_log, 2, "derivatives present", 160)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.name.find("double") != std::string::npos && dbl(x); });
    const int n = pick_size(src, b, 12);
    const bool lg = src.chance(40);
    const double x = src.chance(30) ? gen_any(src) : gen_wide(src, 20);
    Vec d = gen_data(src, b, n, 1, &ctx.nontrivial);
    d[0] = x;
    ctx.nontrivial = ctx.nontrivial && n > 0;
    const P a = b.create(d), k = b.constant(x, n);
    double have, con, want, e;
    if (lg)
    {
        e = gen_log_base(src);
        have = b.f(*b.log_base(*a, e), true);
        con = b.f(*b.log_base(*k, e), true);
        want = std::log(x) / std::log(e);
    }
    else
    {
        e = src.chance(50) ? double(src.range(0, 12)) - 6 : gen_small(src);
        have = b.f(*b.pow(*a, e, 1), true);
        con = b.f(*b.pow(*k, e, 1), true);
        want = std::pow(x, e);
    }
    ctx.log(show(b, n) + (lg ? " log base " : " pow exponent ") + sci(e) + " of " + jet_text(d));
    if (!same_value(have, con))
        ctx.fail("value " + sci(have) + " depends on the derivatives: " + sci(con) + " for a constant");
    if (!agrees(have, want, 1.2e-16))
        ctx.fail("value " + sci(have) + ", plain arithmetic gives " + sci(want));
}

// -------------------------------------------------------------------- C24
// the same programs under other build configurations of the library
static void config_program(Src &src, Ctx &ctx)
{
    static const char *CONF[] = {"ndebug", "noexc", "noeigen", "clang"};
    const std::string conf = CONF[src.raw() % 4];
    ctx.label(conf);
    const auto &v = backends(conf);
    const Backend &b = *v[src.raw() % v.size()];
    ctx.log("configuration " + conf);
    const Backend *d = nullptr;
    for (auto *x : backends())
        if (x->name == b.name)
            d = x;
    if (!d)
        throw std::logic_error("harness: no counterpart of " + b.name);
    const int n = std::max(1, pick_size(src, b, 10));
    Program p;
    const std::vector<ref::J> want = gen_program(src, p, n, b.order, b.eps, b.eps > 1e-10 ? 1e-2 : 1e-6);
    ctx.log(show(b, n));
    log_program(ctx, p);
    const std::vector<P> r = run_program(b, p), s = run_program(*d, p);
    for (std::size_t i = 0; i < r.size(); i++)
    {
        check_jet(ctx, b, *r[i], want[i], "v" + std::to_string(i) + " (" + conf + ")");
        check_jet(ctx, *d, *s[i], want[i], "v" + std::to_string(i) + " (default)");
    }
    ctx.nontrivial = p.steps.size() >= 4;
}
PROPERTY(C24, programs, 60, "four or more operations", 320)
{
    config_program(src, ctx);
}
} // namespace hv
