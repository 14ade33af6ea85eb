// Driver: generated search with rapidcheck, and replay of a saved case.
//   hv run ID --seed N --cases N --out DIR [--cap SECONDS]
//   hv replay FILE
//   hv list | selftest
// Exit: 0 held, 1 violation (case written to DIR/fail.txt), 77 crash and 78 hang
// (case written to DIR/crash.txt), 2 error of the harness.
#include "harness.hpp"
#include <rapidcheck.h>

#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char *__asan_default_options() { return "abort_on_error=1:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=0:hard_rss_limit_mb=8000:max_allocation_size_mb=4000:allocator_may_return_null=0"; }
extern "C" const char *__ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }

using namespace hv;
typedef std::vector<uint32_t> Seq;

static const Prop *cur_prop = nullptr;
static const Seq *cur_seq = nullptr;
static std::size_t cur_len = 0;
static Ctx *cur_ctx = nullptr;
static std::string out_dir = ".";

static std::string encode(const Prop &p, const Seq &c, std::size_t used, const std::string &reason, const std::string &desc)
{
    std::ostringstream o;
    o << "property " << p.id << " " << p.name << "\n";
    o << "choices";
    std::size_t n = std::min(used, c.size());
    while (n && c[n - 1] == 0)
        n--;
    for (std::size_t i = 0; i < n; i++)
        o << " " << c[i];
    o << "\nreason " << reason << "\ncase\n"
      << desc;
    return o.str();
}
// the case at hand, for the process that started this one: it may be ended without a chance to tell
static const std::size_t CURRENT = 1 << 16;
static unsigned char *current_map = nullptr;
static void open_current()
{
    const int fd = open((out_dir + "/current.bin").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, CURRENT))
        return;
    void *m = mmap(nullptr, CURRENT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED)
        current_map = static_cast<unsigned char *>(m);
    close(fd);
}
static void note_current(const Prop *p, const Seq &c)
{
    if (!current_map)
        return;
    const uint32_t n = p ? uint32_t(std::min(c.size(), (CURRENT - 256) / 4)) : 0;
    memset(current_map, 0, 128);
    if (p)
        snprintf(reinterpret_cast<char *>(current_map), 128, "%s %s", p->id, p->name);
    memcpy(current_map + 128, &n, 4);
    if (n)
        memcpy(current_map + 132, c.data(), n * 4);
}
static bool ended_by_time(int sig) { return sig == SIGVTALRM || sig == SIGALRM; }
static void on_fatal(int sig)
{
    signal(sig, SIG_DFL);
    if (sig != SIGALRM)
    {
        // what follows needs memory, which may be broken or locked
        signal(SIGALRM, SIG_DFL);
        alarm(20);
    }
    if (cur_prop && cur_seq)
    {
        const std::string s = encode(*cur_prop, *cur_seq, cur_seq->size(), ended_by_time(sig) ? "does not terminate" : "crash: signal, assertion or sanitizer report (see the log)", cur_ctx ? cur_ctx->desc : "");
        std::ofstream(out_dir + "/crash.txt") << s;
        if (cur_ctx)
            fprintf(stderr, "%s\n", s.c_str());
    }
    _exit(ended_by_time(sig) ? 78 : 77);
}
static void arm(long seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
#ifdef __SANITIZE_THREAD__
    setitimer(ITIMER_REAL, &t, nullptr); // threads that wait for each other take no time
#endif
}

struct Outcome
{
    enum { OK, FAIL, DISCARD, ERROR } kind = OK;
    std::string reason;
    std::size_t used = 0;
};
static Outcome execute(const Prop &p, const Seq &c, Ctx &ctx)
{
    Outcome r;
    Src src(c);
    cur_prop = &p;
    cur_seq = &c;
    cur_ctx = &ctx;
    note_current(&p, c);
    try
    {
        p.fn(src, ctx);
    }
    catch (const Violation &v)
    {
        r.kind = Outcome::FAIL;
        r.reason = v.what();
    }
    catch (const Discard &)
    {
        r.kind = Outcome::DISCARD;
    }
    catch (const std::logic_error &e)
    {
        // raised by the harness itself, or by a checked access in the library
        r.kind = std::string(e.what()).rfind("harness", 0) == 0 || std::string(e.what()).rfind("ref:", 0) == 0 ? Outcome::ERROR : Outcome::FAIL;
        r.reason = std::string("unexpected exception: ") + e.what();
    }
    catch (const std::exception &e)
    {
        r.kind = Outcome::FAIL;
        r.reason = std::string("unexpected exception: ") + e.what();
    }
    cur_ctx = nullptr;
    cur_seq = nullptr;
    note_current(nullptr, {});
    r.used = src.pos;
    return r;
}

static uint64_t hash(const Prop &p, const Seq &c, std::size_t used)
{
    uint64_t h = 1469598103934665603ULL;
    auto mix = [&](uint64_t x) {
        h ^= x;
        h *= 1099511628211ULL;
        h ^= h >> 29;
    };
    for (const char *s = p.name; *s; s++)
        mix(*s);
    for (std::size_t i = 0; i < used; i++)
        mix(i < c.size() ? c[i] : 0);
    return h;
}
static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s)
    {
        char b[8];
        if (ch == '"' || ch == '\\')
            r += '\\', r += char(ch);
        else if (ch < 32)
            snprintf(b, sizeof b, "\\u%04x", ch), r += b;
        else
            r += char(ch);
    }
    return r + "\"";
}

struct Stats
{
    std::map<std::string, long> labels, per_prop, per_prop_nt, kept;
    std::unordered_set<uint64_t> nontrivial;
    std::vector<std::string> samples;
    long evaluations = 0, discards = 0, failures = 0;
    bool capped = false;
    double wall = 0;

    void count(const Prop *p, const Seq &c, const Outcome &o, const Ctx &ctx)
    {
        evaluations++;
        per_prop[p->name]++;
        if (!ctx.nontrivial)
            return;
        if (nontrivial.insert(hash(*p, c, o.used)).second)
            per_prop_nt[p->name]++;
        if (kept[p->name] < 2 && !ctx.desc.empty() && per_prop[p->name] > 3)
        {
            kept[p->name]++;
            samples.push_back(std::string(p->name) + ": " + ctx.desc.substr(0, 1500));
        }
    }
    void write(const std::vector<const Prop *> &mine)
    {
        std::ofstream f(out_dir + "/stats.json");
        f << "{\"evaluations\": " << evaluations << ", \"discards\": " << discards << ", \"failures\": " << failures << ", \"capped\": " << (capped ? "true" : "false") << ", \"wall\": " << wall << ",\n\"labels\": {";
        bool first = true;
        for (auto &l : labels)
            f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second, first = false;
        f << "},\n\"rules\": {";
        first = true;
        for (auto *p : mine)
            f << (first ? "" : ", ") << jstr(p->name) << ": " << jstr(p->rule), first = false;
        f << "},\n\"per\": {";
        first = true;
        for (auto &l : per_prop)
            f << (first ? "" : ", ") << jstr(l.first) << ": [" << l.second << ", " << per_prop_nt[l.first] << "]", first = false;
        f << "},\n\"samples\": [";
        first = true;
        for (auto &x : samples)
            f << (first ? "" : ",\n") << jstr(x), first = false;
        f << "]}\n";
        std::ofstream hb(out_dir + "/hashes.bin", std::ios::binary);
        for (uint64_t h : nontrivial)
            hb.write(reinterpret_cast<const char *>(&h), 8);
    }
};

static int run(const std::string &id, uint64_t seed, long cases, double cap)
{
    Stats st;
    long total = 0;
    std::vector<const Prop *> mine;
    for (auto &p : props())
        if (id == p.id)
        {
            mine.push_back(&p);
            total += p.weight;
        }
    if (mine.empty())
    {
        fprintf(stderr, "no such property %s\n", id.c_str());
        return 2;
    }
    const auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    bool error = false;
    double share = 0;
    for (auto *p : mine)
    {
        const long n = std::max<long>(20, cases * p->weight / total);
        share += cap * p->weight / total;
        bool failed = false;
        long shrink_runs = 0;
        std::string best;
        const rc::Gen<Seq> gen([&](const rc::Random &random, int) -> rc::Shrinkable<Seq> {
            rc::Random r(random);
            Seq c;
            const uint64_t head = r.next();
            std::size_t len = 8 + head % uint64_t(p->maxlen);
            if ((head >> 40) % 4 == 0)
                len = p->maxlen;
            c.reserve(len + 1);
            while (c.size() < len)
            {
                const uint64_t x = r.next();
                c.push_back(uint32_t(x));
                c.push_back(uint32_t(x >> 32));
            }
            return rc::shrinkable::shrinkRecur(std::move(c), [](const Seq &v) {
                return rc::seq::concat(rc::shrink::removeChunks(v), rc::shrink::eachElement(v, [](uint32_t x) { return rc::shrink::integral(x); }));
            });
        });
        auto testable = [&]() {
            if (!failed && (st.capped || elapsed() > share))
            {
                st.capped = true;
                return;
            }
            const Seq c = *gen;
            if (failed && ++shrink_runs > 4000)
                return; // give up shrinking: treat as passing
            Ctx ctx;
            if (!failed)
                ctx.labels = &st.labels;
            arm(100);
            const Outcome o = execute(*p, c, ctx);
            arm(0);
            if (o.kind == Outcome::ERROR)
            {
                fprintf(stderr, "harness error in %s %s: %s\n%s\n", p->id, p->name, o.reason.c_str(), ctx.desc.c_str());
                error = true;
                RC_FAIL("harness error");
            }
            if (o.kind == Outcome::FAIL)
            {
                failed = true;
                best = encode(*p, c, o.used, o.reason, ctx.desc);
                RC_FAIL(o.reason);
            }
            if (failed)
            {
                if (o.kind == Outcome::DISCARD)
                    RC_DISCARD("");
                return;
            }
            if (o.kind == Outcome::DISCARD)
            {
                st.discards++;
                RC_DISCARD("");
            }
            st.count(p, c, o, ctx);
        };
        rc::detail::TestParams tp;
        tp.seed = seed * 1000003ULL + std::hash<std::string>()(p->name) % 999983 + 1;
        tp.maxSuccess = int(n);
        tp.maxDiscardRatio = 20;
        rc::detail::TestMetadata md;
        md.id = p->name;
        const auto result = rc::detail::checkTestable(testable, md, tp);
        if (error)
            return 2;
        if (failed)
        {
            st.failures++;
            std::ofstream(out_dir + "/fail.txt") << best;
            std::cerr << best << std::endl;
            break;
        }
        rc::detail::GaveUpResult gu;
        if (result.match(gu) && !st.capped)
        {
            std::cerr << p->id << " " << p->name << ": the generator discards too much\n";
            return 2;
        }
    }
    st.wall = elapsed();
    st.write(mine);
    return st.failures ? 1 : 0;
}

static int replay(const std::string &file)
{
    std::ifstream f(file);
    std::string line, id, name;
    Seq c;
    while (std::getline(f, line))
    {
        std::istringstream s(line);
        std::string w;
        s >> w;
        if (w == "property")
            s >> id >> name;
        else if (w == "choices")
        {
            uint32_t x;
            while (s >> x)
                c.push_back(x);
            break;
        }
    }
    for (auto &p : props())
        if (id == p.id && name == p.name)
        {
            Ctx ctx;
            arm(100);
            const Outcome o = execute(p, c, ctx);
            arm(0);
            std::cout << ctx.desc;
            if (o.kind == Outcome::FAIL)
            {
                std::cout << "violated: " << o.reason << std::endl;
                std::ofstream(out_dir + "/fail.txt") << encode(p, c, o.used, o.reason, ctx.desc);
                return 1;
            }
            std::cout << (o.kind == Outcome::ERROR ? "harness error: " + o.reason : std::string("held")) << std::endl;
            return o.kind == Outcome::ERROR ? 2 : 0;
        }
    std::cerr << "no such property in " << file << "\n";
    return 2;
}

#ifdef HV_FUZZ
// coverage guided: the first byte selects the generator, every two bytes after it are a choice
static std::vector<const Prop *> fuzz_props;
static Stats *fuzz_stats;
static std::chrono::steady_clock::time_point fuzz_start;
static void fuzz_end()
{
    fuzz_stats->wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - fuzz_start).count();
    fuzz_stats->write(fuzz_props);
}
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    const char *id = getenv("HV_PROP");
    if (getenv("HV_OUT"))
        out_dir = getenv("HV_OUT");
    for (auto &p : props())
        if (id && std::string(id) == p.id)
            fuzz_props.push_back(&p);
    if (fuzz_props.empty())
    {
        fprintf(stderr, "no such property\n");
        _exit(2);
    }
    for (int s : {SIGABRT, SIGVTALRM})
        signal(s, on_fatal);
    open_current();
    fuzz_stats = new Stats;
    fuzz_start = std::chrono::steady_clock::now();
    atexit(fuzz_end);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (size < 3)
        return 0;
    const Prop *p = fuzz_props[data[0] % fuzz_props.size()];
    Seq c;
    for (size_t i = 1; i + 1 < size && c.size() < size_t(p->maxlen) + 10; i += 2)
        c.push_back(uint32_t(data[i] | (data[i + 1] << 8)) * 65537u);
    Ctx ctx;
    ctx.labels = &fuzz_stats->labels;
    arm(100);
    const Outcome o = execute(*p, c, ctx);
    arm(0);
    if (o.kind == Outcome::DISCARD)
    {
        fuzz_stats->discards++;
        return -1;
    }
    if (o.kind != Outcome::OK)
    {
        const std::string s = encode(*p, c, o.used, o.reason, ctx.desc);
        if (o.kind == Outcome::FAIL)
            std::ofstream(out_dir + "/fail.txt") << s;
        fprintf(stderr, "%s\n", s.c_str());
        _exit(o.kind == Outcome::FAIL ? 1 : 2);
    }
    fuzz_stats->count(p, c, o, ctx);
    return 0;
}
#else
int main(int argc, char **argv)
{
    signal(SIGABRT, on_fatal);
#ifndef __SANITIZE_ADDRESS__
    signal(SIGSEGV, on_fatal);
    signal(SIGFPE, on_fatal);
#endif
    signal(SIGVTALRM, on_fatal);
    signal(SIGALRM, on_fatal);
    const std::string cmd = argc > 1 ? argv[1] : "";
    uint64_t seed = 1;
    long cases = 1000;
    double cap = 300;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i];
        if (a == "--seed")
            seed = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--cases")
            cases = atol(argv[i + 1]);
        else if (a == "--out")
            out_dir = argv[i + 1];
        else if (a == "--cap")
            cap = atof(argv[i + 1]);
    }
    if (cmd == "list")
    {
        for (auto &p : props())
            printf("%s %s %d\n", p.id, p.name, p.weight);
        return 0;
    }
    if (cmd == "selftest")
    {
        const std::string s = ref::selftest();
        printf("%s\n", s.empty() ? "ok" : s.c_str());
        return s.empty() ? 0 : 2;
    }
    if (cmd == "run")
        open_current();
    if (cmd == "run" && argc > 2)
        return run(argv[2], seed, cases, cap);
    if (cmd == "replay" && argc > 2)
        return replay(argv[2]);
    fprintf(stderr, "usage: see main.cpp\n");
    return 2;
}
#endif
