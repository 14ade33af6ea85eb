// Type-erased access to one instantiation of the library's number type.
// Everything crosses this interface as plain doubles, so that one property can
// be stated once and run against every instantiation.
#pragma once
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace hv
{
struct Unsupported : std::logic_error
{
    using std::logic_error::logic_error;
};
using Vec = std::vector<double>;

enum U { NEG, RECIP, SQRT, CBRT, COS, SIN, TAN, ACOS, ASIN, ATAN, COSH, SINH, TANH, ACOSH, ASINH, ATANH, EXP, LOG, LOG2, LOG10, ABS, U_COUNT };
enum B { ADD, SUB, MUL, DIV, ATAN2, HYPOT, B_COUNT };
enum C { EQ, NE, LT, GT, LE, GE, C_COUNT };
const char *const U_NAME[] = {"neg", "reciprocal", "sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log", "log2", "log10", "abs"};
const char *const B_NAME[] = {"+", "-", "*", "/", "atan2", "hypot"};
const char *const C_NAME[] = {"==", "!=", "<", ">", "<=", ">="};

struct Obj
{
    virtual ~Obj() = default;
};
using P = std::unique_ptr<Obj>;

struct Backend
{
    std::string name;
    int order = 2;
    int ssize = -1;      // static size, -1 for dynamic
    double eps = 2.2e-16; // unit of the scalar type

    bool dynamic() const { return ssize < 0; }
    std::size_t len(long n) const { return order == 1 ? std::size_t(1 + n) : std::size_t((n + 1) * (n + 2) / 2); }

    virtual ~Backend() = default;
    // construction
    virtual P create(const Vec &data) const = 0;      // T::create(data)
    virtual P clone(const Obj &a) const = 0;          // copy constructor
    virtual void assign(Obj &a, const Obj &b) const = 0; // copy assignment
    virtual P move_out(Obj &a) const = 0;             // move constructor
    virtual void move_assign(Obj &a, Obj &b) const = 0; // a = std::move(b)
    virtual void swap(Obj &a, Obj &b) const = 0;        // std::swap
    virtual P zero() const = 0;
    virtual P zero(long size) const = 0;
    virtual P empty() const = 0;
    virtual P empty(long size) const = 0;
    virtual P constant(double f) const = 0;
    virtual P constant(double f, long size) const = 0;
    virtual P variable(long i, double f) const = 0; // static only
    virtual P variable(long i, double f, long size) const = 0;
    virtual std::vector<P> variables(const Vec &values) const = 0;
    virtual std::vector<P> variables_array(const Vec &values) const = 0; // std::array overload
    virtual P default_ctor() const = 0;
    virtual P scalar_ctor(double f) const = 0;
    virtual P init_list(const Vec &data) const = 0; // lengths 1..10, 15, 21
    virtual P data_ctor(const Vec &data, long size) const = 0;
    virtual P from_arrays(double f, const Vec &g, const Vec &hm, long rows, long cols) const = 0; // order 2
    virtual P from_gradient(double f, const Vec &g) const = 0;             // order 1
    virtual long data_length_from_size(long size) const = 0;
    virtual long size_from_data_length(long n) const = 0;
    // access
    virtual long size(const Obj &a) const = 0;
    virtual long data_length(const Obj &a) const = 0;
    virtual bool is_dynamic() const = 0;
    virtual Vec data(const Obj &a) const = 0;  // data()
    virtual Vec ptr(const Obj &a) const = 0;   // ptr()[0..data_length)
    virtual Vec adata(Obj &a) const = 0;       // adata()
    virtual void set_adata(Obj &a, const Vec &v) const = 0;
    virtual Vec ag(const Obj &a, bool as_const) const = 0;
    virtual void ag_write(Obj &a, long i, double v) const = 0; // ag()(i) = v
    virtual double f(const Obj &a, bool as_const) const = 0;
    virtual void set_f(Obj &a, double v, bool by_ref) const = 0;
    virtual double g(const Obj &a, long i, bool as_const) const = 0;
    virtual void set_g(Obj &a, long i, double v, bool by_ref) const = 0;
    virtual double h(const Obj &a, long i, long j, bool as_const) const = 0;
    virtual void set_h(Obj &a, long i, long j, double v, bool by_ref) const = 0;
    virtual double h(const Obj &a, long k, bool as_const) const = 0;
    virtual void set_h(Obj &a, long k, double v, bool by_ref) const = 0;
    virtual Vec hm(const Obj &a, const std::string &mode, bool out_form) const = 0; // row major n x n
    virtual void set_hm(Obj &a, const Vec &m, long rows, long cols) const = 0;
    virtual void set_zero(Obj &a) const = 0;
    virtual double eval(const Obj &a, const Vec &d) const = 0;
    virtual std::string text(const Obj &a, bool stream) const = 0;
    // dynamic only
    virtual void resize(Obj &a, long n) const = 0;
    virtual P pad_left(const Obj &a, long n) const = 0;
    virtual P pad_right(const Obj &a, long n) const = 0;
    // operations; free: use the free function instead of the member
    virtual P un(U op, const Obj &a, bool free) const = 0;
    virtual P bin(B op, const Obj &a, const Obj &b, bool free) const = 0;
    virtual P bin_ds(B op, const Obj &a, double s) const = 0; // a op s
    virtual P bin_sd(B op, double s, const Obj &a) const = 0; // s op a
    virtual void ip(B op, Obj &a, const Obj &b) const = 0;    // a op= b
    virtual void ip_s(B op, Obj &a, double s) const = 0;      // a op= s
    virtual void ip_own(B op, Obj &a, long k) const = 0;      // a op= (reference to own entry k: 0 f, 1.. g)
    virtual P hypot3(const Obj &a, const Obj &b, const Obj &c, bool free) const = 0;
    virtual P pow(const Obj &a, double b, int form) const = 0; // 0 member, 1 free double, 2 free index
    virtual P log_base(const Obj &a, double base) const = 0;
    virtual bool cmp(C op, const Obj &a, const Obj &b) const = 0;
    virtual bool cmp_ds(C op, const Obj &a, double s) const = 0;
    virtual bool cmp_sd(C op, double s, const Obj &a) const = 0;
};

// registry, filled by the translation units that instantiate backends
void register_backend(std::unique_ptr<Backend> b, const std::string &config);
const std::vector<const Backend *> &backends(const std::string &config = "default");
} // namespace hv
