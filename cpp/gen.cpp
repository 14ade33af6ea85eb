#include "harness.hpp"
#include <algorithm>
#include <cstring>
#include <limits>

namespace hv
{
// registry of instantiations
static std::map<std::string, std::vector<std::unique_ptr<Backend>>> &store()
{
    static std::map<std::string, std::vector<std::unique_ptr<Backend>>> s;
    return s;
}
void register_backend(std::unique_ptr<Backend> b, const std::string &config) { store()[config].push_back(std::move(b)); }
const std::vector<const Backend *> &backends(const std::string &config)
{
    static std::map<std::string, std::vector<const Backend *>> v;
    auto &r = v[config];
    if (r.empty())
    {
        for (auto &b : store()[config])
            r.push_back(b.get());
        std::sort(r.begin(), r.end(), [](const Backend *a, const Backend *b) { return a->name < b->name; });
        if (r.empty())
            throw std::logic_error("harness: no backends for " + config);
    }
    return r;
}
std::vector<Prop> &props()
{
    static std::vector<Prop> p;
    return p;
}

static const double SPECIAL[] = {1, 0, 2, -1, 0.5, -0.5, 3, -2, -0.0, 10, 0.1, -3, 1.5, 4, 0.25, 2.718281828459045, 3.141592653589793, -3.141592653589793, 1.5707963267948966, 0.7853981633974483, 1e3, -1e3, 1e-3, 1e-8, 1e6, 100, -7, 5, 8, 27};

double gen_small(Src &s)
{
    switch (s.range(0, 5))
    {
    case 0: return SPECIAL[s.raw() % (sizeof SPECIAL / sizeof *SPECIAL)];
    case 1: return double(s.range(0, 20)) - 10;
    case 2: return (double(s.range(0, 4000)) - 2000) / 1000;
    case 3: return 2 * s.unit() - 1;
    case 4: return 20 * s.unit() - 10;
    default:
    {
        const double m = std::pow(10.0, 12 * s.unit() - 6);
        return s.chance(50) ? -m : m;
    }
    }
}
double gen_wide(Src &s, int m)
{
    if (!s.chance(30))
        return gen_small(s);
    const double x = std::pow(10.0, 2 * m * s.unit() - m);
    return s.chance(50) ? -x : x;
}
double gen_any(Src &s)
{
    typedef std::numeric_limits<double> L;
    static const double T[] = {0.0, -0.0, L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), -L::max(), L::min(), L::denorm_min(), -L::denorm_min(), 1e308, 1e-308, 4.9e-320, L::epsilon(), 1e154, 1e-154, 9007199254740993.0};
    switch (s.range(0, 3))
    {
    case 0: case 1: return gen_small(s);
    case 2: return T[s.raw() % (sizeof T / sizeof *T)];
    default:
    {
        uint64_t u = (uint64_t(s.raw()) << 32) | s.raw();
        double d;
        std::memcpy(&d, &u, 8);
        return d;
    }
    }
}
double round_to(const Backend &b, double x) { return b.eps > 1e-10 ? double(float(x)) : x; }
int wide_m(const Backend &b) { return b.eps > 1e-10 ? 5 : 30; }

double gen_arg(Src &s, U op, const Backend &b)
{
    const int m = wide_m(b);
    double x;
    switch (op)
    {
    case ACOS: case ASIN: case ATANH:
        switch (s.range(0, 3))
        {
        case 0: x = (double(s.range(0, 18)) - 9) / 10; break;
        case 1: x = 1.998 * s.unit() - 0.999; break;
        case 2: x = std::pow(10.0, -m * s.unit()) * 0.9; break;
        default: x = 1 - std::pow(10.0, -4 * s.unit()) * 0.9; break;
        }
        if (s.chance(40))
            x = -x;
        break;
    case ACOSH:
        switch (s.range(0, 3))
        {
        case 0: x = 2 + s.range(0, 10); break;
        case 1: x = 1 + 5 * s.unit() + 1e-3; break;
        case 2: x = 1 + std::pow(10.0, -4 * s.unit()); break;
        default: x = 1 + std::pow(10.0, m * s.unit()); break;
        }
        break;
    case SQRT: case LOG: case LOG2: case LOG10:
        x = std::fabs(gen_wide(s, m));
        break;
    case COSH: case SINH: case EXP:
        x = s.chance(30) ? (b.eps > 1e-10 ? 30 : 200) * (2 * s.unit() - 1) : gen_small(s);
        break;
    case TANH:
        x = s.chance(70) ? 6 * s.unit() - 3 : gen_small(s);
        break;
    case COS: case SIN: case TAN:
        x = gen_small(s);
        break;
    default:
        x = gen_wide(s, m);
    }
    x = round_to(b, x);
    if (b.eps > 1e-10 && (op == COSH || op == SINH || op == EXP) && std::fabs(x) > 30)
        x = std::fmod(x, 30);
    if ((op == COSH || op == SINH || op == EXP) && std::fabs(x) > 200)
        x = std::fmod(x, 200);
    if (!ref::in_domain(op, x) || (op == ABS && x == 0))
        x = op == ACOSH ? 1.5 : 0.5;
    return x;
}
PowArg gen_pow(Src &s, const Backend &b)
{
    PowArg r;
    const bool fl = b.eps > 1e-10;
    switch (s.range(0, 4))
    {
    case 0: r.b = s.range(0, 4); break;
    case 1: r.b = double(s.range(0, 16)) - 8; break;
    case 2: r.b = (double(s.range(0, 16)) - 8) / 2; break;
    case 3: r.b = 10 * s.unit() - 5; break;
    default: r.b = double(s.range(0, 200)) / 100 - 1; break;
    }
    r.x = round_to(b, gen_wide(s, fl ? 2 : 10));
    if (std::fabs(r.x) > 1e4 && fl)
        r.x = 3;
    const bool integer = r.b == std::floor(r.b);
    if (r.x < 0 && !integer)
        r.x = -r.x;
    // at zero: only exponents for which the power is twice differentiable
    if (r.x == 0 && !(r.b >= 2 || r.b == 0 || r.b == 1))
        r.x = 1.25;
    return r;
}
double gen_log_base(Src &s)
{
    switch (s.range(0, 2))
    {
    case 0: { static const double T[] = {2, 10, 3, 0.5, 2.718281828459045, 1.5, 7, 16, 0.1, 100}; return T[s.raw() % 10]; }
    case 1: return 1.25 + 20 * s.unit();
    default: return 0.05 + 0.8 * s.unit();
    }
}

std::string &default_config()
{
    static std::string c = "default";
    return c;
}
const Backend &pick_backend(Src &s, const std::string &config)
{
    const auto &v = backends(config == "default" ? default_config() : config);
    return *v[s.raw() % v.size()];
}
const Backend &pick_backend_if(Src &s, const std::function<bool(const Backend &)> &p, const std::string &config)
{
    std::vector<const Backend *> v;
    for (auto *b : backends(config == "default" ? default_config() : config))
        if (p(*b))
            v.push_back(b);
    if (v.empty())
        throw std::logic_error("harness: no such backend");
    return *v[s.raw() % v.size()];
}
int pick_size(Src &s, const Backend &b, int max_dynamic)
{
    if (!b.dynamic())
    {
        return b.ssize;
    }
    switch (s.range(0, 3))
    {
    case 0: return int(s.range(0, 3));
    case 1: return int(s.range(0, 8));
    case 2: return int(s.range(0, std::min(17, max_dynamic)));
    default:
    {
        const int n = int(s.range(0, max_dynamic));
        // now and then many variables
        return s.chance(12) ? n + int(s.range(16, 40)) * (s.chance(20) ? 4 : 1) : n;
    }
    }
}
Vec gen_data(Src &s, const Backend &b, int n, double f, bool *dense)
{
    Vec d(b.len(n), 0.0);
    d[0] = round_to(b, f);
    const long ng = n, nh = long(d.size()) - 1 - n;
    auto fill = [&](long from, long count, int pattern) {
        if (count <= 0)
            return;
        switch (pattern)
        {
        case 0: return; // all zero
        case 1:         // single entry
            d[from + s.range(0, count - 1)] = 1;
            return;
        case 2: // some entries
        {
            const long k = s.range(1, std::min<long>(count, 6));
            for (long i = 0; i < k; i++)
                d[from + s.range(0, count - 1)] = round_to(b, gen_small(s));
            return;
        }
        case 3: // dense, one choice per entry, or one seed if there are many
            if (count <= 12)
            {
                for (long i = 0; i < count; i++)
                    d[from + i] = round_to(b, gen_small(s));
                return;
            }
            // fall through
        default:
        {
            uint64_t x = s.raw() * 6364136223846793005ULL + 1442695040888963407ULL;
            for (long i = 0; i < count; i++)
            {
                x = x * 6364136223846793005ULL + 1442695040888963407ULL;
                d[from + i] = (double((x >> 40) % 65) - 32) / 8;
            }
        }
        }
    };
    static const int PG[] = {0, 1, 2, 3, 4, 4, 3, 4};
    const int pg = PG[s.raw() % 8], ph = PG[s.raw() % 8];
    fill(1, ng, pg);
    if (b.order == 2)
        fill(1 + ng, nh, ph);
    if (dense)
        *dense = (n == 0) || (pg >= 2 && (b.order == 1 || ph >= 2));
    return d;
}

std::string show(const Backend &b, int n) { return b.name + " n=" + std::to_string(n); }
std::string sci(double x) { return ref::str(x); }
bool same_bits(double a, double b)
{
    if (a != a && b != b)
        return true;
    return std::memcmp(&a, &b, 8) == 0;
}
bool same_value(double a, double b) { return (a != a && b != b) || a == b; }
bool same_data(const Vec &a, const Vec &b)
{
    if (a.size() != b.size())
        return false;
    for (std::size_t i = 0; i < a.size(); i++)
        if (!same_value(a[i], b[i]))
            return false;
    return true;
}
double floor_of(const Backend &b) { return b.eps > 1e-10 ? 1e-30 : 1e-280; }

void check_jet(Ctx &ctx, const Backend &b, const Obj &r, const ref::J &want, const std::string &what)
{
    if (b.size(r) != want.n)
        ctx.fail(what + ": size " + std::to_string(b.size(r)) + ", expected " + std::to_string(want.n));
    const Vec d = b.data(r);
    if (b.data_length(r) != long(d.size()))
        ctx.fail(what + ": data length");
    const std::string s = ref::compare(want, d, floor_of(b), b.eps > 1e-10 ? 1e30 : 1e290);
    if (!s.empty())
        ctx.fail(what + ": " + s);
}
void check_same(Ctx &ctx, const Vec &have, const Vec &want, const std::string &what)
{
    if (!same_data(have, want))
        ctx.fail(what + ": " + ref::str(have) + ", expected " + ref::str(want));
}
} // namespace hv
