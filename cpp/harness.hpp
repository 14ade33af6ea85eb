// A property is a function of a sequence of choices. The sequence is produced and
// shrunk by rapidcheck, mutated by libFuzzer, or read back from a replay file;
// the property only ever draws from it, so a case is a pure function of it.
#pragma once
#include "backend.hpp"
#include "ref.hpp"

#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace hv
{
// 0 is the simplest choice; an exhausted sequence continues with zeros.
struct Src
{
    const std::vector<uint32_t> &c;
    std::size_t pos = 0;
    explicit Src(const std::vector<uint32_t> &c_) : c(c_) {}
    uint32_t raw() { return pos < c.size() ? c[pos++] : (pos++, 0u); }
    bool exhausted() const { return pos >= c.size(); }
    // lo .. hi inclusive, lo is the simplest
    long range(long lo, long hi) { return lo + long(raw() % uint32_t(hi - lo + 1)); }
    bool chance(int percent) { return raw() % 100u >= uint32_t(100 - percent); } // 0: false
    template <typename T>
    const T &pick(const std::vector<T> &v) { return v[raw() % v.size()]; }
    double unit() { return double(raw()) / 4294967296.0; } // [0, 1)
};

struct Violation : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct Discard
{
};

struct Ctx
{
    std::string desc; // human readable form of the case, one line per step
    bool nontrivial = false;
    std::map<std::string, long> *labels = nullptr;
    void log(const std::string &s)
    {
        desc += s;
        desc += '\n';
    }
    void label(const std::string &s)
    {
        if (labels)
            ++(*labels)[s];
    }
    [[noreturn]] void fail(const std::string &s) { throw Violation(s); }
    void require(bool ok, const std::string &s)
    {
        if (!ok)
            fail(s);
    }
    [[noreturn]] void discard() { throw Discard(); }
};

using PropFn = void (*)(Src &, Ctx &);
struct Prop
{
    const char *id;   // C01
    const char *name; // sub-property
    PropFn fn;
    int weight;       // share of the cases
    const char *rule; // what makes a case non-trivial
    int maxlen;       // length of the choice sequence
};
std::vector<Prop> &props();
struct RegProp
{
    RegProp(const char *id, const char *name, PropFn fn, int weight, const char *rule, int maxlen = 200) { props().push_back({id, name, fn, weight, rule, maxlen}); }
};
#define HV_STR2(x) #x
#define HV_STR(x) HV_STR2(x)
#ifdef HV_AS_C24 // the properties of this file once more, under another build configuration
#define HV_ID(id) "C24"
#define HV_SUBNAME(id, name) #id "_" #name "_" HV_STR(HV_AS_C24)
#else
#define HV_ID(id) #id
#define HV_SUBNAME(id, name) #name
#endif
#define PROPERTY(id, name, weight, rule, ...)                                        \
    static void prop_##id##_##name(::hv::Src &src, ::hv::Ctx &ctx);                  \
    static ::hv::RegProp reg_##id##_##name(HV_ID(id), HV_SUBNAME(id, name), prop_##id##_##name, weight, rule, ##__VA_ARGS__); \
    static void prop_##id##_##name(::hv::Src &src, ::hv::Ctx &ctx)

// --- generators (gen.cpp)

// any finite number of moderate size (|x| <= 1e6), rich in special values
double gen_small(Src &s);
// finite, |x| in [1e-m, 1e m] or 0
double gen_wide(Src &s, int m);
// any double: also infinities, nan, denormals, extremes
double gen_any(Src &s);
double round_to(const Backend &b, double x); // to the scalar type of the backend
int wide_m(const Backend &b);

// a point at which op is twice differentiable, moderate to wide
double gen_arg(Src &s, U op, const Backend &b);
struct PowArg { double x, b; };
PowArg gen_pow(Src &s, const Backend &b);
double gen_log_base(Src &s);

// the build configuration that "default" stands for: property C24 runs other properties under other builds
std::string &default_config();
// an instantiation and a number of variables
const Backend &pick_backend(Src &s, const std::string &config = "default");
const Backend &pick_backend_if(Src &s, const std::function<bool(const Backend &)> &p, const std::string &config = "default");
int pick_size(Src &s, const Backend &b, int max_dynamic = 24);
// packed derivatives for the value f, rounded to the scalar type
Vec gen_data(Src &s, const Backend &b, int n, double f, bool *dense = nullptr);

// --- helpers
std::string show(const Backend &b, int n);
std::string sci(double x);
bool same_bits(double a, double b);          // nan equals nan, -0 differs from 0
bool same_value(double a, double b);         // nan equals nan, -0 equals 0
bool same_data(const Vec &a, const Vec &b);  // elementwise same_value
double floor_of(const Backend &b);
// reference jet against a result; fails the case
void check_jet(Ctx &ctx, const Backend &b, const Obj &r, const ref::J &want, const std::string &what);
void check_same(Ctx &ctx, const Vec &have, const Vec &want, const std::string &what);
template <typename F>
bool throws(F f)
{
    try
    {
        f();
    }
    catch (const Violation &)
    {
        throw;
    }
    catch (const std::exception &)
    {
        return true;
    }
    return false;
}
} // namespace hv
