// C14, C15, C25: the sparse number with named variables, against dense derivatives over a fixed list of names
#include "harness.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
#include <algorithm>
#include <cmath>
#include <sstream>
#include <utility>

namespace hv
{
namespace
{
const std::vector<std::string> NAMES = {"x", "y", "x1", "X", "", "x y", "\xce\xb1\xce\xb2", "a_name_longer_than_any_small_string_buffer_of_the_library_0", "a_name_longer_than_any_small_string_buffer_of_the_library_1", "f"};
const int NN = int(NAMES.size());

// the generators only look at the rounding unit of the instantiation
const Backend &scalar_like(bool fl)
{
    for (auto *b : backends())
        if (b->name == (fl ? "DDScalar<1,float,Dynamic>" : "DDScalar<1,double,Dynamic>"))
            return *b;
    throw std::logic_error("harness: no such backend");
}

template <typename T>
struct Num
{
    hyperjet::SScalar<T> s;
    ref::J j;
    unsigned names = 0; // names that occur in any operand: the others have derivative zero
};
template <typename T>
constexpr double unit_of() { return sizeof(T) == 4 ? 6.0e-8 : 1.2e-16; }

template <typename T>
Vec dense(const hyperjet::SScalar<T> &s)
{
    Vec d{double(s.f())};
    for (auto &n : NAMES)
        d.push_back(double(s.d(n)));
    return d;
}
template <typename T>
std::string text_of(const Num<T> &a)
{
    const Vec d = dense(a.s);
    std::string r = sci(d[0]);
    for (int i = 0; i < NN; i++)
        if (a.names >> i & 1)
            r += " d[" + NAMES[i] + "]=" + sci(d[1 + i]);
    return r;
}
template <typename T>
void check(Ctx &ctx, const Num<T> &a, const std::string &what)
{
    const bool fl = sizeof(T) == 4;
    const long n0 = long(a.s.size());
    const Vec d = dense(a.s);
    const std::string s = ref::compare(a.j, d, fl ? 1e-30 : 1e-280, fl ? 1e30 : 1e290);
    if (!s.empty())
        ctx.fail(what + ": " + s);
    int upper = 0, lower = 0;
    for (int i = 0; i < NN; i++)
    {
        if (!(a.names >> i & 1) && !(d[1 + i] == 0))
            ctx.fail(what + ": derivative " + sci(d[1 + i]) + " with respect to '" + NAMES[i] + "', which occurs in no operand");
        upper += a.names >> i & 1;
        lower += d[1 + i] != 0;
    }
    ctx.require(a.s.d("no such name") == 0 && a.s.d("x ") == 0, what + ": derivative with respect to an unknown name is not zero");
    const long n1 = long(a.s.size());
    ctx.require(n0 == n1, what + ": lookups change the size from " + std::to_string(n0) + " to " + std::to_string(n1));
    ctx.require(n1 >= lower && n1 <= upper, what + ": size() = " + std::to_string(n1) + " but " + std::to_string(lower) + " derivatives are not zero and " + std::to_string(upper) + " names occur");
}

// a number with chosen value and random names and derivatives
template <typename T>
Num<T> make(Src &src, double f)
{
    Num<T> a;
    f = double(T(f));
    a.j = ref::J(NN, 1);
    a.j.f = f;
    const int kind = int(src.range(0, 4));
    if (kind == 0)
    {
        const int i = int(src.range(0, NN - 1));
        a.s = hyperjet::SScalar<T>::variable(NAMES[i], T(f));
        a.names = 1u << i;
        a.j.g[i] = 1;
    }
    else if (kind == 1 && src.chance(30))
    {
        a.s = src.chance(50) ? hyperjet::SScalar<T>::constant(T(f)) : hyperjet::SScalar<T>(T(f));
    }
    else
    {
        typename hyperjet::SScalar<T>::Data d;
        // few names so that operands often share some
        const int k = int(src.range(1, src.chance(30) ? NN : 4));
        for (int t = 0; t < k; t++)
        {
            const int i = int(src.range(0, src.chance(30) ? NN - 1 : 4));
            const double v = double(T(gen_small(src)));
            d[NAMES[i]] = T(v);
            a.names |= 1u << i;
            a.j.g[i] = v;
        }
        a.s = hyperjet::SScalar<T>(T(f), d);
    }
    return a;
}

template <typename T>
hyperjet::SScalar<T> lib_un(U op, const hyperjet::SScalar<T> &a, bool free)
{
    switch (op)
    {
    case NEG: return -a;
    case RECIP: return a.reciprocal();
#define HV_F(E, fn) case E: return free ? hyperjet::fn(a) : a.fn();
    HV_F(SQRT, sqrt)
    HV_F(CBRT, cbrt)
    HV_F(COS, cos)
    HV_F(SIN, sin)
    HV_F(TAN, tan)
    HV_F(ACOS, acos)
    HV_F(ASIN, asin)
    HV_F(ATAN, atan)
    HV_F(COSH, cosh)
    HV_F(SINH, sinh)
    HV_F(TANH, tanh)
    HV_F(ACOSH, acosh)
    HV_F(ASINH, asinh)
    HV_F(ATANH, atanh)
    HV_F(EXP, exp)
    HV_F(LOG, log)
    HV_F(LOG2, log2)
    HV_F(LOG10, log10)
    HV_F(ABS, abs)
#undef HV_F
    default: throw std::logic_error("harness: op");
    }
}
template <typename T>
hyperjet::SScalar<T> lib_bin(B op, const hyperjet::SScalar<T> &a, const hyperjet::SScalar<T> &b, bool free)
{
    switch (op)
    {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case DIV: return a / b;
    case ATAN2: return free ? hyperjet::atan2(a, b) : a.atan2(b);
    default: return free ? hyperjet::hypot(a, b) : hyperjet::SScalar<T>::hypot(a, b);
    }
}
template <typename T>
hyperjet::SScalar<T> lib_mix(B op, const hyperjet::SScalar<T> &a, T s, bool left)
{
    switch (op)
    {
    case ADD: return left ? s + a : a + s;
    case SUB: return left ? s - a : a - s;
    case MUL: return left ? s * a : a * s;
    default: return left ? s / a : a / s;
    }
}
template <typename T>
void lib_ip(B op, hyperjet::SScalar<T> &a, const hyperjet::SScalar<T> &b)
{
    hyperjet::SScalar<T> *r;
    switch (op)
    {
    case ADD: r = &(a += b); break;
    case SUB: r = &(a -= b); break;
    case MUL: r = &(a *= b); break;
    default: r = &(a /= b);
    }
    if (r != &a)
        throw Violation("compound assignment does not return the target");
}
template <typename T>
void lib_ip_s(B op, hyperjet::SScalar<T> &a, T b)
{
    switch (op)
    {
    case ADD: a += b; break;
    case SUB: a -= b; break;
    case MUL: a *= b; break;
    default: a /= b;
    }
}

// the sparse number stores what the reference has: the operand's own data in exact form
template <typename T>
void exact(Num<T> &a)
{
    const Vec d = dense(a.s);
    a.j = ref::from_data(d, NN, 1);
}

// prints as the value followed by one signed term for every stored derivative
template <typename T>
void check_text(Ctx &ctx, const Num<T> &a, std::ostream &&format_of, const std::string &text)
{
    auto show_scalar = [&](T v) {
        std::ostringstream o;
        o.copyfmt(format_of);
        o << v;
        return o.str();
    };
    const std::string f = show_scalar(a.s.f());
    ctx.require(text.compare(0, f.size(), f) == 0, "text '" + text + "' does not start with the value " + f);
    std::string rest = text.substr(f.size());
    std::vector<int> order;
    for (int i = 0; i < NN; i++)
        order.push_back(i);
    std::sort(order.begin(), order.end(), [](int p, int q) { return NAMES[p].size() > NAMES[q].size(); });
    long terms = 0;
    for (int i : order)
    {
        const T d = a.s.d(NAMES[i]);
        const std::string term = (d < 0 ? " " : " +") + show_scalar(d) + "*d" + NAMES[i];
        const auto at = rest.find(term);
        if (at == std::string::npos)
        {
            ctx.require(d == 0, "text '" + text + "' lacks the term '" + term + "'");
            continue;
        }
        ctx.require(a.names >> i & 1, "text '" + text + "' contains the term '" + term + "' of a name that does not occur");
        rest.erase(at, term.size());
        terms++;
    }
    ctx.require(terms == long(a.s.size()), "text '" + text + "' shows " + std::to_string(terms) + " derivatives of " + std::to_string(a.s.size()));
    ctx.require(rest.empty(), "text '" + text + "' contains '" + rest + "' beyond the terms of its derivatives");
}
template <typename T>
bool printable(const Num<T> &a)
{
    for (double x : dense(a.s))
        if (x != x || (x == 0 && std::signbit(x)))
            return false;
    return true;
}
} // namespace

// -------------------------------------------------------------------- C14
template <typename T>
static void functions(Src &src, Ctx &ctx)
{
    const Backend &like = scalar_like(sizeof(T) == 4);
    const double eps = unit_of<T>();
    const int kind = int(src.range(0, 9));
    Num<T> r;
    std::string what;
    const bool free = src.chance(50);
    if (kind <= 2)
    {
        const U op = U(src.range(0, U_COUNT - 1));
        Num<T> a = make<T>(src, gen_arg(src, op, like)), keep = a;
        what = U_NAME[op];
        ctx.log(what + (free ? " (free function)" : "") + " of " + text_of(a));
        if (!ref::in_domain(op, a.j.f))
            ctx.discard();
        r.s = lib_un(op, a.s, free);
        r.j = ref::un(op, a.j, eps);
        r.names = a.names;
        check(ctx, r, what);
        check(ctx, keep, "operand after the call");
        check_same(ctx, dense(a.s), dense(keep.s), "operand after the call");
        ctx.nontrivial = a.names != 0;
    }
    else if (kind <= 5)
    {
        const B op = B(src.range(0, B_COUNT - 1));
        double x = gen_wide(src, wide_m(like) / 3), y = gen_wide(src, wide_m(like) / 3);
        Num<T> a = make<T>(src, x), b = src.chance(15) ? a : make<T>(src, y);
        const bool alias = src.chance(20);
        if (alias)
            b = a;
        what = std::string(B_NAME[op]) + (alias ? " of a number and itself" : "");
        ctx.log(what + ": " + text_of(a) + " and " + text_of(b));
        if (!ref::bin_domain(op, a.j.f, b.j.f))
            ctx.discard();
        const Vec da = dense(a.s), db = dense(b.s);
        r.s = lib_bin(op, a.s, alias ? a.s : b.s, free);
        r.j = ref::bin(op, a.j, b.j, eps);
        r.names = a.names | b.names;
        check(ctx, r, what);
        check_same(ctx, dense(a.s), da, "first operand after the call");
        check_same(ctx, dense(b.s), db, "second operand after the call");
        check(ctx, a, "first operand after the call");
        check(ctx, b, "second operand after the call");
        const unsigned common = a.names & b.names;
        ctx.label(!a.names || !b.names ? "constant operand" : !common ? "no common name" : (a.names == b.names ? "same names" : "some common names"));
        ctx.nontrivial = a.names && b.names;
    }
    else if (kind <= 7)
    {
        const B op = B(src.range(0, 3));
        const bool left = src.chance(50);
        Num<T> a = make<T>(src, gen_wide(src, wide_m(like) / 3));
        const double s = double(T(gen_wide(src, wide_m(like) / 3)));
        what = left ? sci(s) + " " + B_NAME[op] + " number" : std::string("number ") + B_NAME[op] + " " + sci(s);
        ctx.log(what + ": " + text_of(a));
        if (op == DIV && (left ? a.j.f == 0 : s == 0))
            ctx.discard();
        const Vec da = dense(a.s);
        r.s = lib_mix(op, a.s, T(s), left);
        r.j = left ? ref::bin_sd(op, s, a.j, eps) : ref::bin_ds(op, a.j, s, eps);
        r.names = a.names;
        check(ctx, r, what);
        check_same(ctx, dense(a.s), da, "operand after the call");
        ctx.nontrivial = a.names != 0;
    }
    else if (kind == 8)
    {
        if (src.chance(30))
        {
            Num<T> a = make<T>(src, gen_arg(src, LOG, like));
            const double base = double(T(gen_log_base(src)));
            what = "log base " + sci(base);
            ctx.log(what + " of " + text_of(a));
            if (!(a.j.f > 0))
                ctx.discard();
            r.s = a.s.log(T(base));
            r.j = ref::log_base(a.j, base, eps);
            r.names = a.names;
            ctx.nontrivial = a.names != 0;
        }
        else
        {
            PowArg p = gen_pow(src, like);
            p.b = double(T(p.b));
            Num<T> a = make<T>(src, p.x);
            const bool integer = p.b == std::floor(p.b);
            const int form = int(src.range(0, integer ? 2 : 1));
            // the sparse number has first derivatives only, so exponents above one are fine at zero
            what = "pow form " + std::to_string(form) + " exponent " + sci(p.b);
            ctx.log(what + " of " + text_of(a));
            r.s = form == 0 ? a.s.pow(T(p.b)) : form == 1 ? hyperjet::pow(a.s, T(p.b)) : hyperjet::pow(a.s, hyperjet::index(p.b));
            r.j = ref::pow(a.j, p.b, eps);
            r.names = a.names;
            ctx.nontrivial = a.names != 0;
        }
        check(ctx, r, what);
    }
    else
    {
        Num<T> a = make<T>(src, gen_wide(src, 4)), b = make<T>(src, gen_wide(src, 4)), c = make<T>(src, gen_wide(src, 4));
        what = "hypot of three";
        const int alias = int(src.range(0, 3));
        if (alias == 1)
            b = a;
        if (alias == 2)
            c = a;
        if (alias == 3)
            c = b;
        ctx.log(what + ": " + text_of(a) + " and " + text_of(b) + " and " + text_of(c));
        if (a.j.f == 0 && b.j.f == 0 && c.j.f == 0)
            ctx.discard();
        const auto &pb = alias == 1 ? a.s : b.s;
        const auto &pc = alias == 2 ? a.s : alias == 3 ? pb : c.s;
        r.s = free ? hyperjet::hypot(a.s, pb, pc) : hyperjet::SScalar<T>::hypot(a.s, pb, pc);
        r.j = ref::hypot3(a.j, b.j, c.j, eps);
        r.names = a.names | b.names | c.names;
        check(ctx, r, what);
        check(ctx, a, "operand after the call");
        check(ctx, b, "operand after the call");
        check(ctx, c, "operand after the call");
        ctx.nontrivial = a.names && b.names && c.names;
    }
    ctx.label(sizeof(T) == 4 ? "float" : "double");
}
PROPERTY(C14, functions, 6, "every operand has named derivatives", 120)
{
    if (src.chance(30))
        functions<float>(src, ctx);
    else
        functions<double>(src, ctx);
}

// -------------------------------------------------------------------- C15
namespace
{
bool domain(U op, double x)
{
    const double m = 0.02;
    switch (op)
    {
    case RECIP: case CBRT: case ABS: return std::fabs(x) > m;
    case SQRT: case LOG: case LOG2: case LOG10: return x > m;
    case ACOS: case ASIN: case ATANH: return std::fabs(x) < 1 - m;
    case ACOSH: return x > 1 + m;
    case COSH: case SINH: case EXP: case TANH: return std::fabs(x) < 15;
    case TAN: return std::fabs(std::cos(x)) > m;
    default: return std::fabs(x) < 1e6;
    }
}
bool fits(const ref::J &j, double rel)
{
    double mx = std::fabs(double(j.f));
    for (auto &g : j.g)
        mx = std::max(mx, std::fabs(double(g)));
    return mx < 1e8 && ref::usable(j, rel);
}

template <typename T>
void history(Src &src, Ctx &ctx, bool long_chain)
{
    const double eps = unit_of<T>(), rel = sizeof(T) == 4 ? 1e-2 : 1e-6;
    const int K = 4;
    std::vector<Num<T>> v(K);
    for (int i = 0; i < K; i++)
    {
        v[i] = make<T>(src, double(src.range(0, 60) - 20) / 10);
        ctx.log("n" + std::to_string(i) + " = " + text_of(v[i]));
        check(ctx, v[i], "n" + std::to_string(i));
    }
    const int steps = int(src.range(2, long_chain ? 40 : 16));
    int done = 0, updates = 0;
    for (int t = 0; t < steps && !src.exhausted(); t++)
    {
        const int i = int(src.range(0, K - 1)), j = int(src.range(0, K - 1)), k = int(src.range(0, K - 1));
        Num<T> &a = v[i];
        auto nm = [](int q) { return "n" + std::to_string(q); };
        std::string what;
        switch (src.range(0, 12))
        {
        case 0: // compound with a number, possibly itself
        case 1:
        case 2:
        {
            const B op = B(src.range(0, 3));
            what = nm(i) + " " + B_NAME[op] + "= " + nm(j);
            if (op == DIV && std::fabs(double(v[j].j.f)) < 0.02)
                continue;
            const ref::J want = ref::bin(op, a.j, v[j].j, eps);
            if (!fits(want, rel))
                continue;
            lib_ip(op, a.s, v[j].s);
            a.names |= v[j].names;
            a.j = want;
            updates++;
            ctx.label(i == j ? "compound with itself" : "compound");
            break;
        }
        case 3: // compound with a scalar
        {
            const B op = B(src.range(0, 3));
            const double s = double(T(gen_small(src)));
            what = nm(i) + " " + B_NAME[op] + "= " + sci(s);
            if (op == DIV && std::fabs(s) < 1e-3)
                continue;
            const ref::J want = ref::bin_ds(op, a.j, s, eps);
            if (!fits(want, rel))
                continue;
            lib_ip_s(op, a.s, T(s));
            a.j = want;
            updates++;
            break;
        }
        case 4: // plain operation into a slot that may be an operand
        case 5:
        {
            const B op = B(src.range(0, B_COUNT - 1));
            const double x = double(v[j].j.f), y = double(v[k].j.f);
            what = nm(i) + " = " + B_NAME[op] + "(" + nm(j) + ", " + nm(k) + ")";
            if ((op == DIV && std::fabs(y) < 0.02) || (op >= ATAN2 && std::hypot(x, y) < 0.02) || (op == ATAN2 && std::fabs(x) < 0.02 && y < 0.02))
                continue;
            const ref::J want = ref::bin(op, v[j].j, v[k].j, eps);
            if (!fits(want, rel))
                continue;
            const unsigned names = v[j].names | v[k].names;
            a.s = lib_bin(op, v[j].s, v[k].s, src.chance(50));
            a.j = want;
            a.names = names;
            break;
        }
        case 6:
        {
            const U op = U(src.range(0, U_COUNT - 1));
            what = nm(i) + " = " + U_NAME[op] + "(" + nm(j) + ")";
            if (!domain(op, double(v[j].j.f)))
                continue;
            const ref::J want = ref::un(op, v[j].j, eps);
            if (!fits(want, rel))
                continue;
            const unsigned names = v[j].names;
            a.s = lib_un(op, v[j].s, src.chance(50));
            a.j = want;
            a.names = names;
            break;
        }
        case 7: // copy, assignment, move
        {
            switch (src.range(0, 3))
            {
            case 0:
                what = nm(i) + " = " + nm(j);
                a = v[j];
                break;
            case 1:
                what = nm(i) + " = " + nm(i);
                {
                    auto *p = &a.s;
                    a.s = *p;
                }
                break;
            case 2:
                what = nm(i) + " = move(copy of " + nm(j) + ")";
                {
                    hyperjet::SScalar<T> c(v[j].s);
                    a.s = std::move(c);
                    a.j = v[j].j;
                    a.names = v[j].names;
                }
                break;
            default:
                what = "swap(" + nm(i) + ", " + nm(j) + ")";
                if (i == j)
                    continue;
                std::swap(a.s, v[j].s);
                std::swap(a.j, v[j].j);
                std::swap(a.names, v[j].names);
            }
            break;
        }
        case 8: // evaluation
        {
            typename hyperjet::SScalar<T>::Data step;
            const ref::J &m = a.j;
            ref::Q want = 0;
            double err = 0;
            int common = 0;
            const int count = int(src.range(0, 6));
            for (int q = 0; q < count; q++)
            {
                const int w = int(src.range(0, NN)); // NN: a name that never occurs
                const double d = double(T(gen_small(src)));
                step[w == NN ? "z" : NAMES[w]] = T(d);
            }
            for (int w = 0; w < NN; w++)
            {
                const auto it = step.find(NAMES[w]);
                if (it == step.end())
                    continue;
                const double d = double(it->second);
                want += m.g[w] * d;
                err += (m.eg[w] * 1.01 + 64 * eps * std::fabs(double(m.g[w]))) * std::fabs(d);
                common++;
            }
            what = nm(i) + ".eval(" + std::to_string(step.size()) + " steps)";
            const auto copy = step;
            const double have = double(a.s.eval(step));
            ctx.log(what);
            ctx.require(std::fabs(have - double(want)) <= err + 1e-30, what + " = " + sci(have) + ", expected " + ref::str(want));
            ctx.require(step == copy, what + ": the steps changed");
            ctx.label(common ? "eval with common names" : "eval without common names");
            break;
        }
        case 9: // comparison
        {
            const double x = double(a.s.f()), y = double(v[j].s.f()), c = src.chance(50) ? x : double(T(gen_small(src)));
            const bool p[] = {a.s == v[j].s, a.s != v[j].s, a.s < v[j].s, a.s > v[j].s, a.s <= v[j].s, a.s >= v[j].s};
            const bool w[] = {x == y, x != y, x < y, x > y, x <= y, x >= y};
            const T s = T(c);
            const bool ps[] = {a.s == s, a.s != s, a.s < s, a.s > s, a.s <= s, a.s >= s};
            const bool ws[] = {x == c, x != c, x < c, x > c, x <= c, x >= c};
            const bool pr[] = {s == a.s, s != a.s, s < a.s, s > a.s, s <= a.s, s >= a.s};
            const bool wr[] = {c == x, c != x, c < x, c > x, c <= x, c >= x};
            what = "compare " + nm(i) + " with " + nm(j) + " and " + sci(c);
            ctx.log(what);
            for (int q = 0; q < 6; q++)
            {
                ctx.require(p[q] == w[q], std::string("number ") + C_NAME[q] + " number with values " + sci(x) + " and " + sci(y) + " is " + (p[q] ? "true" : "false"));
                ctx.require(ps[q] == ws[q], std::string("number ") + C_NAME[q] + " scalar with values " + sci(x) + " and " + sci(c) + " is " + (ps[q] ? "true" : "false"));
                ctx.require(pr[q] == wr[q], std::string("scalar ") + C_NAME[q] + " number with values " + sci(c) + " and " + sci(x) + " is " + (pr[q] ? "true" : "false"));
            }
            break;
        }
        case 10: // printing
        {
            if (!printable(a))
                continue;
            std::ostringstream o;
            o << a.s;
            what = "print " + nm(i);
            ctx.log(what);
            check_text(ctx, a, std::ostringstream(), o.str());
            const std::string s = a.s.to_string();
            check_text(ctx, a, std::ostringstream(), s);
            break;
        }
        case 11: // a fresh number
            what = nm(i) + " = ";
            a = make<T>(src, double(src.range(0, 60) - 20) / 10);
            what += text_of(a);
            break;
        default: // scalar on either side, power
        {
            if (src.chance(60))
            {
                const B op = B(src.range(0, 3));
                const bool left = src.chance(50);
                const double s = double(T(gen_small(src)));
                what = nm(i) + " = " + (left ? sci(s) + " " + B_NAME[op] + " " + nm(j) : nm(j) + " " + B_NAME[op] + " " + sci(s));
                if (op == DIV && std::fabs(left ? double(v[j].j.f) : s) < 0.02)
                    continue;
                const ref::J want = left ? ref::bin_sd(op, s, v[j].j, eps) : ref::bin_ds(op, v[j].j, s, eps);
                if (!fits(want, rel))
                    continue;
                const unsigned names = v[j].names;
                a.s = lib_mix(op, v[j].s, T(s), left);
                a.j = want;
                a.names = names;
            }
            else
            {
                const double e = double(src.range(0, 9)) - 4;
                what = nm(i) + " = pow(" + nm(j) + ", " + sci(e) + ")";
                if (std::fabs(double(v[j].j.f)) < 0.02)
                    continue;
                const ref::J want = ref::pow(v[j].j, e, eps);
                if (!fits(want, rel))
                    continue;
                const unsigned names = v[j].names;
                a.s = v[j].s.pow(T(e));
                a.j = want;
                a.names = names;
            }
        }
        }
        done++;
        if (ctx.desc.size() < what.size() + 1 || ctx.desc.compare(ctx.desc.size() - what.size() - 1, what.size(), what) != 0)
            ctx.log(what);
        for (int q = 0; q < K; q++)
            check(ctx, v[q], nm(q) + " after " + what);
        if (src.chance(40))
            exact(v[i]); // continue from what is stored: keeps long histories sharp
    }
    ctx.nontrivial = done >= 4 && updates >= 1;
    ctx.label(done >= 12 ? "12 or more steps" : "fewer than 12 steps");
}
} // namespace
PROPERTY(C15, history, 6, "four or more steps with a compound update on a pool of four numbers", 600)
{
    if (src.chance(30))
        history<float>(src, ctx, true);
    else
        history<double>(src, ctx, true);
}
// a program of sparse numbers that start as variables has the derivatives of the whole expression
PROPERTY(C14, program, 3, "four or more steps on a pool of four numbers", 400)
{
    history<double>(src, ctx, false);
}

// -------------------------------------------------------------------- C25
namespace
{
void set_format(Src &src, std::ostream &o, std::string &how)
{
    const int p = int(src.range(0, 20));
    switch (src.range(0, 4))
    {
    case 0: how = "default"; break;
    case 1: o.precision(p); how = "precision " + std::to_string(p); break;
    case 2: o << std::fixed; o.precision(p); how = "fixed, precision " + std::to_string(p); break;
    case 3: o << std::scientific; o.precision(p); how = "scientific, precision " + std::to_string(p); break;
    default: o << std::hexfloat; how = "hexfloat"; break;
    }
    if (src.chance(20))
    {
        o << std::uppercase;
        how += ", uppercase";
    }
}
} // namespace
template <typename T>
static void sparse_text(Src &src, Ctx &ctx)
{
    Num<T> a = make<T>(src, gen_small(src));
    if (!printable(a))
        ctx.discard();
    std::ostringstream o;
    std::string how;
    set_format(src, o, how);
    ctx.log(how + ": " + text_of(a));
    std::ostringstream before;
    before.copyfmt(o);
    const Vec d = dense(a.s);
    std::ostream &ret = (o << a.s);
    ctx.require(&ret == &o, "stream output does not return the stream");
    ctx.require(o.flags() == before.flags() && o.precision() == before.precision() && o.width() == before.width() && o.fill() == before.fill(), "stream output changes the format of the stream");
    check_same(ctx, dense(a.s), d, "number after printing");
    check(ctx, a, "number after printing");
    std::ostringstream fmt;
    fmt.copyfmt(before);
    check_text(ctx, a, std::move(fmt), o.str());
    check_text(ctx, a, std::ostringstream(), a.s.to_string());
    // what follows in the stream is formatted as before
    o << T(1) / T(3);
    before << T(1) / T(3);
    const std::string all = o.str(), tail = before.str();
    ctx.require(all.size() >= tail.size() && all.compare(all.size() - tail.size(), tail.size(), tail) == 0, "a number printed after it reads '" + all + "'");
    ctx.nontrivial = a.names != 0;
}
PROPERTY(C25, sparse, 3, "the number has named derivatives", 100)
{
    if (src.chance(30))
        sparse_text<float>(src, ctx);
    else
        sparse_text<double>(src, ctx);
}
#ifndef HV_AS_C24
// every instantiation through the common interface: default format
PROPERTY(C25, instantiations, 3, "the number has derivatives", 120)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 12);
    const double f = round_to(b, src.chance(30) ? gen_any(src) : gen_wide(src, 12));
    const Vec d = gen_data(src, b, n, f, &ctx.nontrivial);
    ctx.nontrivial = ctx.nontrivial && n > 0;
    ctx.log(show(b, n) + " value " + sci(d[0]));
    const P a = b.create(d);
    std::ostringstream o;
    if (b.eps > 1e-10)
        o << float(d[0]);
    else
        o << d[0];
    for (int stream = 0; stream < 2; stream++)
    {
        const std::string t = b.text(*a, stream);
        ctx.require(t == o.str() + "hj", std::string(stream ? "stream output" : "to_string()") + " is '" + t + "', expected '" + o.str() + "hj'");
    }
    check_same(ctx, b.data(*a), d, "number after printing");
}
#endif
template <typename N>
static void dense_text(Src &src, Ctx &ctx, long n)
{
    typedef typename N::Scalar T;
    const double f = src.chance(30) ? gen_any(src) : gen_wide(src, 12);
    N a = N::constant(T(f));
    if constexpr (N::is_dynamic())
        a = N::constant(T(f), n);
    for (long i = 0; i < n; i++)
        a.g(i) = T(gen_small(src));
    std::ostringstream o;
    std::string how;
    set_format(src, o, how);
    ctx.log(how + ": value " + sci(f) + ", " + std::to_string(n) + " variables");
    std::ostringstream before, want;
    before.copyfmt(o);
    want.copyfmt(o);
    want << T(f) << "hj" << T(1) / T(3);
    const auto data = a.data();
    std::ostream &ret = (o << a);
    ctx.require(&ret == &o, "stream output does not return the stream");
    ctx.require(o.flags() == before.flags() && o.precision() == before.precision() && o.width() == before.width() && o.fill() == before.fill(), "stream output changes the format of the stream");
    o << T(1) / T(3);
    ctx.require(o.str() == want.str(), "stream contains '" + o.str() + "', expected '" + want.str() + "'");
    for (std::size_t i = 0; i < std::size_t(a.data_length()); i++)
        ctx.require(same_value(double(a.ptr()[i]), double(data[i])), "printing changes the number");
    ctx.nontrivial = n > 0;
}
PROPERTY(C25, formats, 4, "one or more variables", 100)
{
    switch (src.range(0, 4))
    {
    case 0: dense_text<hyperjet::DDScalar<2, double, 2>>(src, ctx, 2); break;
    case 1: dense_text<hyperjet::DDScalar<1, double, 3>>(src, ctx, 3); break;
    case 2: dense_text<hyperjet::DDScalar<2, double>>(src, ctx, src.range(0, 4)); break;
    case 3: dense_text<hyperjet::DDScalar<2, float, 1>>(src, ctx, 1); break;
    default: dense_text<hyperjet::DDScalar<1, long double, 1>>(src, ctx, 1); break;
    }
}
} // namespace hv
