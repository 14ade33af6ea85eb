// C27: independent numbers in several threads, and numbers that several threads read. Built with the thread sanitizer.
#include "harness.hpp"
#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
#include <atomic>
#include <sstream>
#include <thread>

// a report does not end the process: the case fails and is shrunk like any other
static std::atomic<int> races(0);
extern "C" const char *__tsan_default_options() { return "halt_on_error=0:handle_abort=0:exitcode=0:report_thread_leaks=0:suppress_equal_stacks=0:suppress_equal_addresses=0:symbolize=0"; }
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, std::memory_order_relaxed); }

namespace hv
{
namespace
{
struct Step
{
    int kind, op, a, b, c, t;
    bool free;
    double s;
    long k;
    Vec v;
};
const int KINDS = 17;
const char *const KIND_NAME[KINDS] = {"function", "operator", "number and scalar", "scalar and number", "in place", "in place with scalar", "hypot", "pow", "log", "comparison", "eval", "text", "accessors", "padding", "write", "construction", "rejected"};

Step gen_step(Src &src, const Backend &b, int n)
{
    Step s;
    s.kind = int(src.range(0, KINDS - 1));
    s.op = int(src.raw() % 1000);
    s.a = int(src.range(0, 4));
    s.b = int(src.range(0, 4));
    s.c = int(src.range(0, 4));
    s.t = int(src.range(0, 2));
    s.free = src.chance(50);
    s.s = round_to(b, gen_small(src));
    s.k = src.range(0, n);
    if (s.kind == 10)
        for (int i = 0; i < n; i++)
            s.v.push_back(round_to(b, gen_small(src)));
    return s;
}
// numbers 0..2 are the thread's own, 3 and 4 are read by all threads
struct Env
{
    const Backend &b;
    int n;
    std::vector<P> own;
    const std::vector<P> &shared;
    std::vector<Vec> out;
    std::string error;
    const Obj &at(int i) const { return i < 3 ? *own[i] : *shared[i - 3]; }
};
void step(Env &e, const Step &s)
{
    const Backend &b = e.b;
    const Obj &x = e.at(s.a), &y = e.at(s.b), &z = e.at(s.c);
    P r;
    switch (s.kind)
    {
    case 0: r = b.un(U(s.op % U_COUNT), x, s.free); break;
    case 1: r = b.bin(B(s.op % B_COUNT), x, y, s.free); break;
    case 2: r = b.bin_ds(B(s.op % 4), x, s.s); break;
    case 3: r = b.bin_sd(B(s.op % 4), s.s, x); break;
    case 4: b.ip(B(s.op % 4), *e.own[s.t], y); break;
    case 5: b.ip_s(B(s.op % 4), *e.own[s.t], s.s); break;
    case 6: r = b.hypot3(x, y, z, s.free); break;
    case 7: r = b.pow(x, s.s, s.free); break;
    case 8: r = b.log_base(x, s.s); break;
    case 9: e.out.push_back({double(b.cmp(C(s.op % C_COUNT), x, y)), double(b.cmp_ds(C(s.op % C_COUNT), x, s.s)), double(b.cmp_sd(C(s.op % C_COUNT), s.s, x))}); break;
    case 10: e.out.push_back({b.eval(x, s.v)}); break;
    case 11:
    {
        const std::string t = b.text(x, s.free);
        e.out.push_back(Vec(t.begin(), t.end()));
        break;
    }
    case 12:
        e.out.push_back(b.data(x));
        e.out.push_back(b.ag(x, true));
        e.out.push_back({b.f(x, true), double(b.size(x))});
        if (b.order == 2)
            e.out.push_back(b.hm(x, s.free ? "full" : "zeros", s.op % 2 == 0));
        break;
    case 13:
        if (b.dynamic())
        {
            const P p = s.free ? b.pad_left(x, e.n + s.k) : b.pad_right(x, e.n + s.k);
            if (s.op % 2)
                b.resize(*p, e.n);
            e.out.push_back(b.data(*p));
        }
        break;
    case 14:
        if (s.k < e.n)
        {
            b.set_g(*e.own[s.t], s.k, s.s, s.free);
            if (b.order == 2)
                b.set_h(*e.own[s.t], s.k, s.k / 2, s.s + 1, s.free);
        }
        else
            b.set_f(*e.own[s.t], s.s, s.free);
        break;
    case 15:
        switch (s.op % 4)
        {
        case 0: r = b.constant(s.s, e.n); break;
        case 1: r = s.k < e.n ? b.variable(s.k, s.s, e.n) : b.zero(e.n); break;
        case 2: r = b.create(b.data(x)); break;
        default: r = b.clone(x);
        }
        break;
    default:
        if (b.dynamic())
        {
            bool raised = false;
            try
            {
                b.bin(B(s.op % B_COUNT), x, *b.zero(e.n + 1), s.free);
            }
            catch (const std::exception &)
            {
                raised = true;
            }
            e.out.push_back({double(raised)});
        }
    }
    if (r)
    {
        e.out.push_back(b.data(*r));
        e.own[s.t] = std::move(r);
    }
}
void run_steps(Env &e, const std::vector<Step> &steps)
{
    try
    {
        for (auto &s : steps)
            step(e, s);
        for (auto &p : e.own)
            e.out.push_back(e.b.data(*p));
    }
    catch (const std::exception &x)
    {
        e.error = x.what();
    }
}
// starts all threads at the same time
template <typename F>
void together(Ctx &ctx, int k, F f)
{
    std::atomic<int> ready(0);
    races = 0;
    std::vector<std::thread> t;
    for (int i = 0; i < k; i++)
        t.emplace_back([&ready, &f, k, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < k)
                std::this_thread::yield();
            f(i);
        });
    for (auto &x : t)
        x.join();
    ctx.require(races == 0, "the threads race for the same memory (see the report of the thread sanitizer above)");
}
} // namespace

PROPERTY(C27, dense, 3, "two or more threads with three or more steps each", 300)
{
    const Backend &b = pick_backend(src);
    const int n = pick_size(src, b, 9);
    const int threads = 2 + int(src.range(0, 2));
    auto data = [&] { return gen_data(src, b, n, round_to(b, gen_small(src))); };
    std::vector<P> shared;
    for (int i = 0; i < 2; i++)
        shared.push_back(b.create(data()));
    const Vec before[2] = {b.data(*shared[0]), b.data(*shared[1])};
    const bool alike = src.chance(50); // all threads take the same steps on numbers of their own
    std::vector<std::vector<Vec>> start(threads);
    std::vector<std::vector<Step>> steps(threads);
    ctx.log(show(b, n) + ", " + std::to_string(threads) + " threads" + (alike ? ", all take the same steps" : ""));
    std::size_t least = 99;
    for (int i = 0; i < threads; i++)
    {
        for (int k = 0; k < 3; k++)
            start[i].push_back(data());
        if (alike && i)
        {
            steps[i] = steps[0];
            continue;
        }
        const long m = 1 + src.range(0, 9);
        for (long k = 0; k < m; k++)
        {
            steps[i].push_back(gen_step(src, b, n));
            ctx.log("thread " + std::to_string(i) + ": " + KIND_NAME[steps[i].back().kind] + " " + std::to_string(steps[i].back().op));
            ctx.label(KIND_NAME[steps[i].back().kind]);
        }
        least = std::min(least, steps[i].size());
    }
    ctx.nontrivial = least >= 3;
    std::vector<Env> e, alone;
    for (auto *w : {&e, &alone})
        for (int i = 0; i < threads; i++)
        {
            w->push_back(Env{b, n, {}, shared, {}, {}});
            for (auto &d : start[i])
                w->back().own.push_back(b.create(d));
        }
    together(ctx, threads, [&](int i) { run_steps(e[i], steps[i]); });
    for (int i = 0; i < threads; i++)
    {
        run_steps(alone[i], steps[i]);
        const std::string who = "thread " + std::to_string(i);
        ctx.require(e[i].error == alone[i].error, who + " ends with '" + e[i].error + "', alone with '" + alone[i].error + "'");
        ctx.require(e[i].out.size() == alone[i].out.size(), who + " has another number of results than alone");
        for (std::size_t k = 0; k < e[i].out.size(); k++)
        {
            const Vec &p = e[i].out[k], &q = alone[i].out[k];
            ctx.require(p.size() == q.size(), who + ": a result of another length than alone");
            for (std::size_t l = 0; l < p.size(); l++)
                ctx.require(same_bits(p[l], q[l]), who + ": result " + std::to_string(k) + " entry " + std::to_string(l) + " is " + sci(p[l]) + ", alone it is " + sci(q[l]));
        }
    }
    for (int i = 0; i < 2; i++)
        check_same(ctx, b.data(*shared[i]), before[i], "a number that the threads only read");
}

PROPERTY(C27, sparse, 2, "two or more threads with three or more steps each", 300)
{
    using T = hyperjet::SScalar<double>;
    static const std::vector<std::string> NAMES = {"x", "y", "z", "a name that does not fit into a short string"};
    auto make = [&] {
        T::Data d;
        for (auto &n : NAMES)
            if (src.chance(60))
                d[n] = gen_small(src);
        return T(gen_small(src), d);
    };
    const int threads = 2 + int(src.range(0, 2));
    const bool alike = src.chance(50);
    const std::vector<T> shared = {make(), make()};
    struct S
    {
        int kind, op, a, b, t;
        double s;
    };
    std::vector<std::vector<T>> own(threads);
    std::vector<std::vector<S>> steps(threads);
    ctx.log("SScalar, " + std::to_string(threads) + " threads" + (alike ? ", all take the same steps" : ""));
    std::size_t least = 99;
    for (int i = 0; i < threads; i++)
    {
        for (int k = 0; k < 3; k++)
            own[i].push_back(make());
        if (alike && i)
        {
            steps[i] = steps[0];
            continue;
        }
        const long m = 1 + src.range(0, 9);
        for (long k = 0; k < m; k++)
        {
            S s;
            s.kind = int(src.range(0, 9));
            s.op = int(src.raw() % 1000);
            s.a = int(src.range(0, 4));
            s.b = int(src.range(0, 4));
            s.t = int(src.range(0, 2));
            s.s = gen_small(src);
            steps[i].push_back(s);
            ctx.log("thread " + std::to_string(i) + ": kind " + std::to_string(s.kind) + " " + std::to_string(s.op));
        }
        least = std::min(least, steps[i].size());
    }
    ctx.nontrivial = least >= 3;
    using Out = std::vector<Vec>;
    auto go = [&](std::vector<T> x, const std::vector<S> &st) {
        Out out;
        for (auto &s : st)
        {
            const T &a = s.a < 3 ? x[s.a] : shared[s.a - 3], &b = s.b < 3 ? x[s.b] : shared[s.b - 3];
            T r = a;
            switch (s.kind)
            {
            case 0:
                switch (s.op % 21)
                {
                case 0: r = -a; break;
                case 1: r = a.sqrt(); break;
                case 2: r = a.cbrt(); break;
                case 3: r = a.cos(); break;
                case 4: r = a.sin(); break;
                case 5: r = a.tan(); break;
                case 6: r = a.acos(); break;
                case 7: r = a.asin(); break;
                case 8: r = a.atan(); break;
                case 9: r = a.cosh(); break;
                case 10: r = a.sinh(); break;
                case 11: r = a.tanh(); break;
                case 12: r = a.acosh(); break;
                case 13: r = a.asinh(); break;
                case 14: r = a.atanh(); break;
                case 15: r = a.exp(); break;
                case 16: r = a.log(); break;
                case 17: r = a.log2(); break;
                case 18: r = a.log10(); break;
                case 19: r = a.abs(); break;
                default: r = a.reciprocal();
                }
                break;
            case 1: r = s.op % 4 == 0 ? a + b : s.op % 4 == 1 ? a - b : s.op % 4 == 2 ? a * b : a / b; break;
            case 2: r = s.op % 4 == 0 ? a + s.s : s.op % 4 == 1 ? s.s - a : s.op % 4 == 2 ? a * s.s : s.s / a; break;
            case 3:
            {
                T &t = x[s.t];
                s.op % 4 == 0 ? t += b : s.op % 4 == 1 ? t -= b : s.op % 4 == 2 ? t *= b : t /= b;
                break;
            }
            case 4: s.op % 3 == 0 ? x[s.t] *= s.s : s.op % 3 == 1 ? x[s.t] /= s.s : x[s.t] += s.s; break;
            case 5: r = s.op % 3 == 0 ? a.atan2(b) : s.op % 3 == 1 ? T::hypot(a, b) : T::hypot(a, b, a); break;
            case 6: r = s.op % 2 ? a.pow(s.s) : a.log(s.s); break;
            case 7:
            {
                T::Data d;
                d["x"] = s.s;
                d["unknown"] = 1;
                out.push_back({a.eval(d), a.d("unknown"), double(a.size()), double(a == b), double(a < b)});
                break;
            }
            case 8:
            {
                std::ostringstream o;
                o << a;
                out.push_back({double(o.str().size())});
                break;
            }
            default: r = s.op % 2 ? T::variable("x", s.s) : T::constant(s.s);
            }
            if (s.kind != 3 && s.kind != 4)
                x[s.t] = r;
        }
        for (auto &t : x)
        {
            Vec v{t.f(), double(t.size())};
            for (auto &n : NAMES)
                v.push_back(t.d(n));
            out.push_back(v);
        }
        return out;
    };
    std::vector<Out> have(threads);
    together(ctx, threads, [&](int i) { have[i] = go(own[i], steps[i]); });
    for (int i = 0; i < threads; i++)
    {
        const Out want = go(own[i], steps[i]);
        ctx.require(have[i].size() == want.size(), "another number of results than alone");
        for (std::size_t k = 0; k < want.size(); k++)
        {
            ctx.require(have[i][k].size() == want[k].size(), "a result of another length than alone");
            for (std::size_t l = 0; l < want[k].size(); l++)
                ctx.require(same_bits(have[i][k][l], want[k][l]), "thread " + std::to_string(i) + ": result " + std::to_string(k) + " entry " + std::to_string(l) + " is " + sci(have[i][k][l]) + ", alone it is " + sci(want[k][l]));
        }
    }
}
} // namespace hv
