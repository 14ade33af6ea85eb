// C28, C29: memory. Built with a global operator new that counts what is alive and can be told to fail.
#include "harness.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
#include <cstdlib>
#include <new>
#include <optional>
#include <sstream>

namespace
{
thread_local long live = 0;    // blocks that are alive
thread_local long count = 0;   // allocations so far
thread_local long fail_at = 0; // this one fails, 0: none
thread_local bool failed = false;

void *take(std::size_t n)
{
    ++count;
    if (fail_at && count == fail_at)
    {
        failed = true;
        throw std::bad_alloc();
    }
    void *p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++live;
    return p;
}
void give(void *p)
{
    if (p)
        --live;
    std::free(p);
}
} // namespace
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    try
    {
        return take(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); }

namespace hv
{
namespace
{
enum Kind { FUN, OP, SCALAR_RIGHT, SCALAR_LEFT, IN_PLACE, IN_PLACE_SCALAR, HYPOT3, POW, LOGB, EVAL, TEXT, MATRIX, PAD, RESIZE, ASSIGN, MAKE, SWAP, WRONG, KINDS };
const char *const KIND_NAME[KINDS] = {"function", "operator", "number and scalar", "scalar and number", "in place", "in place with scalar", "hypot", "pow", "log", "eval", "text", "matrix", "padding", "resize", "assignment", "construction", "swap and move", "rejected"};
struct Step
{
    int kind, op, a, b, t;
    bool free;
    double s;
    long k;
    Vec v;
};
Step gen_step(Src &src, const Backend &b, int n)
{
    Step s;
    s.kind = int(src.range(0, KINDS - 1));
    s.op = int(src.raw() % 1000);
    s.a = int(src.range(0, 2));
    s.b = int(src.range(0, 2));
    s.t = int(src.range(0, 2));
    s.free = src.chance(50);
    s.s = round_to(b, gen_small(src));
    s.k = src.range(0, 4);
    if (s.kind == EVAL)
        for (int i = 0; i < n; i++)
            s.v.push_back(round_to(b, gen_small(src)));
    return s;
}
std::string show_step(const Step &s)
{
    auto v = [](int i) { return " v" + std::to_string(i); };
    std::string r = std::string(KIND_NAME[s.kind]) + " " + std::to_string(s.op);
    return r + v(s.a) + v(s.b) + " into" + v(s.t) + " k=" + std::to_string(s.k) + (s.free ? " free" : "");
}
using Pool = std::vector<P>;
// one operation; numbers are replaced only after it is done
void step(const Backend &b, Pool &v, const Step &s, int n, bool &writes)
{
    writes = false;
    const Obj &x = *v[s.a], &y = *v[s.b];
    const bool fits = b.size(x) == b.size(y);
    P r;
    switch (s.kind)
    {
    case FUN: r = b.un(U(s.op % U_COUNT), x, s.free); break;
    case OP:
        if (fits)
            r = b.bin(B(s.op % B_COUNT), x, y, s.free);
        break;
    case SCALAR_RIGHT: r = b.bin_ds(B(s.op % 4), x, s.s); break;
    case SCALAR_LEFT: r = b.bin_sd(B(s.op % 4), s.s, x); break;
    case IN_PLACE:
        if (b.size(*v[s.t]) == b.size(y))
        {
            writes = true;
            b.ip(B(s.op % 4), *v[s.t], y);
        }
        break;
    case IN_PLACE_SCALAR: writes = true; b.ip_s(B(s.op % 4), *v[s.t], s.s); break;
    case HYPOT3:
        if (fits)
            r = b.hypot3(x, y, x, s.free);
        break;
    case POW: r = b.pow(x, s.s, s.op % 2); break;
    case LOGB: r = b.log_base(x, s.s); break;
    case EVAL:
        if (b.size(x) == long(s.v.size()))
            b.eval(x, s.v);
        break;
    case TEXT: b.text(x, s.free); break;
    case MATRIX:
        b.ag(x, s.free);
        if (b.order == 2)
            b.hm(x, s.free ? "full" : "zeros", s.op % 2);
        break;
    case PAD:
        if (b.dynamic())
            r = s.free ? b.pad_left(x, b.size(x) + s.k) : b.pad_right(x, b.size(x) + s.k);
        break;
    case RESIZE:
        if (b.dynamic())
        {
            writes = true;
            b.resize(*v[s.t], s.free ? s.k : b.size(*v[s.t]) + s.k);
        }
        break;
    case ASSIGN: writes = true; b.assign(*v[s.t], x); break;
    case MAKE:
        switch (s.op % 6)
        {
        case 0: r = b.constant(s.s, n); break;
        case 1: r = n ? b.variable(s.k % n, s.s, n) : b.zero(n); break;
        case 2: r = b.create(b.data(x)); break;
        case 3: r = b.clone(x); break;
        case 4: r = b.scalar_ctor(s.s); break;
        default: b.variables(Vec(n, s.s)); break;
        }
        break;
    case SWAP:
        writes = true;
        if (s.a != s.t)
        {
            if (s.free)
                b.swap(*v[s.t], *v[s.a]);
            else
            {
                b.move_assign(*v[s.t], *v[s.a]);
                v[s.a] = b.zero(n);
            }
        }
        break;
    default:
        try
        {
            switch (s.op % 5)
            {
            case 0: b.create(Vec(b.order == 1 ? 0 : 5, 1.0)); break;
            case 1: b.zero(-1 - s.k); break;
            case 2: b.variable(n + s.k, 1, n); break;
            case 3: b.bin(B(s.op % B_COUNT), *b.zero(n), *b.zero(n + 1), s.free); break;
            default: b.eval(*b.zero(n), Vec(n + 1, 1.0));
            }
        }
        catch (const std::bad_alloc &)
        {
            throw;
        }
        catch (const std::exception &)
        {
        }
    }
    if (r)
        v[s.t] = std::move(r);
}
} // namespace

PROPERTY(C28, dense, 3, "three or more steps", 300)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 9);
    ctx.log(show(b, n));
    std::vector<Vec> start;
    for (int i = 0; i < 3; i++)
        start.push_back(gen_data(src, b, n, round_to(b, gen_small(src))));
    std::vector<Step> steps;
    const long m = 1 + src.range(0, 11);
    for (long i = 0; i < m; i++)
    {
        steps.push_back(gen_step(src, b, n));
        ctx.log(show_step(steps.back()));
        ctx.label(KIND_NAME[steps.back().kind]);
    }
    ctx.nontrivial = m >= 3;
    auto go = [&] {
        Pool v;
        for (auto &d : start)
            v.push_back(b.create(d));
        bool w;
        for (auto &s : steps)
            step(b, v, s, n, w);
    };
    // what the first round keeps may be a buffer of the standard library; what every round keeps is lost
    long grew = 0;
    for (int i = 0; i < 4; i++)
    {
        const long before = live;
        go();
        grew = live - before;
        if (grew <= 0)
            break;
    }
    ctx.require(grew <= 0, "every repetition of these steps keeps " + std::to_string(grew) + " blocks of memory");
    ctx.require(grew == 0, "these steps free " + std::to_string(-grew) + " blocks that are not theirs");
}

PROPERTY(C29, dense, 3, "an operation that allocates", 120)
{
    const Backend &b = pick_backend_if(src, [](const Backend &x) { return x.dynamic(); });
    const int n = pick_size(src, b, 9);
    ctx.log(show(b, n));
    std::vector<Vec> start;
    for (int i = 0; i < 3; i++)
    {
        const int k = i && src.chance(30) ? int(src.range(0, 9)) : n;
        start.push_back(gen_data(src, b, k, round_to(b, gen_small(src))));
    }
    const Step s = gen_step(src, b, n);
    ctx.log(show_step(s) + " with v0, v1, v2 of " + std::to_string(start[0].size()) + ", " + std::to_string(start[1].size()) + " and " + std::to_string(start[2].size()) + " entries");
    ctx.label(KIND_NAME[s.kind]);
    auto make = [&] {
        Pool v;
        for (auto &d : start)
            v.push_back(b.create(d));
        return v;
    };
    std::vector<Vec> done; // after the operation without a fault
    long needs = 0;
    bool writes = false;
    {
        Pool v = make();
        const long c = count;
        step(b, v, s, n, writes);
        needs = count - c;
        for (auto &p : v)
            done.push_back(b.data(*p));
    }
    ctx.nontrivial = needs > 0;
    if (s.kind == TEXT)
        return; // a stream keeps the error to itself
    for (long k = 1; k <= needs && k <= 40; k++)
    {
        const std::string when = "allocation " + std::to_string(k) + " of " + std::to_string(needs) + " fails: ";
        ctx.label("faults");
        const long before = live;
        std::string error;
        {
            Pool v = make();
            bool raised = false, w;
            failed = false;
            fail_at = count + k;
            try
            {
                step(b, v, s, n, w);
            }
            catch (const std::bad_alloc &)
            {
                raised = true;
            }
            catch (...)
            {
                fail_at = 0;
                throw;
            }
            fail_at = 0;
            if (failed && !raised)
                error = "the error is lost";
            for (int i = 0; i < 3 && error.empty(); i++)
            {
                const bool target = i == s.t || (s.kind == SWAP && i == s.a);
                const bool left = s.kind == SWAP && i == s.a && !s.free; // what a move leaves behind
                const long size = left ? 0 : b.size(*v[i]);
                const Vec d = b.data(*v[i]);
                const std::string who = "v" + std::to_string(i);
                if (left)
                    ;
                else if (size < 0 || b.data_length_from_size(size) != long(d.size()))
                    error = who + " has size " + std::to_string(size) + " and " + std::to_string(d.size()) + " entries";
                else if (!(same_data(d, start[i]) || (target && same_data(d, done[i])) || (target && s.kind == SWAP)))
                    error = who + " is neither what it was nor what it should become";
                if (error.empty())
                {
                    // it can still be used
                    b.assign(*v[i], *b.create(start[0]));
                    if (!same_data(b.data(*v[i]), start[0]))
                        error = who + " does not take a new value";
                }
            }
        }
        const long lost = live - before - (error.capacity() > 15);
        ctx.require(error.empty(), when + error);
        ctx.require(lost <= 0, when + std::to_string(lost) + " blocks of memory are lost");
        ctx.require(lost == 0, when + std::to_string(-lost) + " blocks are freed that are not its own");
    }
}

namespace
{
using T = hyperjet::SScalar<double>;
const char *const NAMES[] = {"x", "y", "z", "a name that does not fit into a short string", "another name that does not fit into a short string"};
T make_sparse(Src &src)
{
    T::Data d;
    for (auto n : NAMES)
        if (src.chance(50))
            d[n] = gen_small(src);
    return T(gen_small(src), d);
}
struct SStep
{
    int kind, op, a, b, t;
    double s;
};
SStep gen_sstep(Src &src)
{
    SStep s;
    s.kind = int(src.range(0, 9));
    s.op = int(src.raw() % 1000);
    s.a = int(src.range(0, 2));
    s.b = int(src.range(0, 2));
    s.t = int(src.range(0, 2));
    s.s = gen_small(src);
    return s;
}
void sstep(std::vector<T> &x, const SStep &s)
{
    const T &a = x[s.a], &b = x[s.b];
    std::optional<T> r;
    switch (s.kind)
    {
    case 0:
        switch (s.op % 8)
        {
        case 0: r = -a; break;
        case 1: r = a.sqrt(); break;
        case 2: r = a.sin(); break;
        case 3: r = a.abs(); break;
        case 4: r = a.exp(); break;
        case 5: r = a.log(); break;
        case 6: r = a.reciprocal(); break;
        default: r = a.tanh();
        }
        break;
    case 1: r = s.op % 4 == 0 ? a + b : s.op % 4 == 1 ? a - b : s.op % 4 == 2 ? a * b : a / b; break;
    case 2: r = s.op % 4 == 0 ? a + s.s : s.op % 4 == 1 ? s.s - a : s.op % 4 == 2 ? a * s.s : s.s / a; break;
    case 3:
    {
        T &t = x[s.t];
        s.op % 4 == 0 ? t += b : s.op % 4 == 1 ? t -= b : s.op % 4 == 2 ? t *= b : t /= b;
        break;
    }
    case 4: s.op % 3 == 0 ? x[s.t] *= s.s : s.op % 3 == 1 ? x[s.t] /= s.s : x[s.t] += s.s; break;
    case 5: r = s.op % 3 == 0 ? a.atan2(b) : s.op % 3 == 1 ? T::hypot(a, b) : T::hypot(a, b, x[s.t]); break;
    case 6: r = s.op % 2 ? a.pow(s.s) : a.log(s.s); break;
    case 7:
    {
        T::Data d;
        d[NAMES[s.op % 5]] = s.s;
        a.eval(d);
        a.d(NAMES[3]);
        break;
    }
    case 8: x[s.t] = a; break;
    default: r = s.op % 2 ? T::variable(NAMES[s.op % 5], s.s) : T::constant(s.s);
    }
    if (r)
        std::swap(x[s.t], *r);
}
Vec state(const T &t)
{
    Vec v{t.f(), double(t.size())};
    for (auto &n : NAMES)
        v.push_back(t.d(n));
    return v;
}
} // namespace

PROPERTY(C28, sparse, 1, "three or more steps", 200)
{
    std::vector<T> start;
    for (int i = 0; i < 3; i++)
        start.push_back(make_sparse(src));
    std::vector<SStep> steps;
    const long m = 1 + src.range(0, 11);
    ctx.log("SScalar");
    for (long i = 0; i < m; i++)
    {
        steps.push_back(gen_sstep(src));
        ctx.log("kind " + std::to_string(steps.back().kind) + " " + std::to_string(steps.back().op));
    }
    ctx.nontrivial = m >= 3;
    long grew = 0;
    for (int i = 0; i < 4; i++)
    {
        const long before = live;
        {
            std::vector<T> x = start;
            for (auto &s : steps)
                sstep(x, s);
        }
        grew = live - before;
        if (grew <= 0)
            break;
    }
    ctx.require(grew <= 0, "every repetition of these steps keeps " + std::to_string(grew) + " blocks of memory");
    ctx.require(grew == 0, "these steps free " + std::to_string(-grew) + " blocks that are not theirs");
}

PROPERTY(C29, sparse, 1, "an operation that allocates", 60)
{
    std::vector<T> start;
    for (int i = 0; i < 3; i++)
        start.push_back(make_sparse(src));
    const SStep s = gen_sstep(src);
    ctx.log("SScalar kind " + std::to_string(s.kind) + " " + std::to_string(s.op) + " v" + std::to_string(s.a) + " v" + std::to_string(s.b) + " into v" + std::to_string(s.t));
    long needs = 0;
    {
        std::vector<T> x = start;
        const long c = count;
        sstep(x, s);
        needs = count - c;
    }
    ctx.nontrivial = needs > 0;
    for (long k = 1; k <= needs && k <= 60; k++)
    {
        const std::string when = "allocation " + std::to_string(k) + " of " + std::to_string(needs) + " fails: ";
        ctx.label("faults");
        const long before = live;
        std::string error;
        {
            std::vector<T> x = start;
            bool raised = false;
            failed = false;
            fail_at = count + k;
            try
            {
                sstep(x, s);
            }
            catch (const std::bad_alloc &)
            {
                raised = true;
            }
            fail_at = 0;
            if (failed && !raised)
                error = "the error is lost";
            for (int i = 0; i < 3 && error.empty(); i++)
            {
                // the target of an interrupted update may hold part of it, but it still works
                if (i != s.t && !same_data(state(x[i]), state(start[i])))
                    error = "v" + std::to_string(i) + " has changed";
                x[i] = start[0];
                if (!same_data(state(x[i]), state(start[0])))
                    error = "v" + std::to_string(i) + " does not take a new value";
            }
        }
        const long lost = live - before - (error.capacity() > 15);
        ctx.require(error.empty(), when + error);
        ctx.require(lost == 0, when + std::to_string(lost) + " blocks of memory are lost");
    }
}
} // namespace hv
