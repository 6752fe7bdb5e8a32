// Harness runtime: seeded cases, violation log, counters, per-case CPU watchdog.  Each harness defines
//   void run_case(uint64_t n, Rng &r);            and optionally   void once_begin(), once_end();
// The process handles cases  first, first+stride, ...  below  count  and writes JSON lines to --out.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <typename T> T oneof(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <typename T> void shuffle(std::vector<T> &v)
    {
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[below(i)]);
    }
};

#ifndef H_TLS
#define H_TLS // h_thread.cpp runs cases of the other harnesses in threads, each with its own log
#endif

namespace H
{
inline FILE *out = nullptr;
inline int progress_fd = -1;
inline H_TLS uint64_t seed = 1, cur_case = 0, violations = 0;
inline bool thorough = false;
inline bool verbose = false;
inline H_TLS std::string mode;
inline H_TLS std::string tmpdir;
inline H_TLS std::map<std::string, uint64_t> counters;
inline H_TLS std::map<std::string, std::set<std::string>> seen; // small distinct-value sets
inline H_TLS std::map<std::string, int> per_key;
inline H_TLS std::map<std::string, std::string> *caught = nullptr; // violations go here instead of the log
inline H_TLS std::vector<std::string> samples;
inline H_TLS std::vector<uint64_t> sigs;
inline int cpu_limit = 60;

inline std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c < 32 || c > 126)
            snprintf(b, sizeof b, "\\u%04x", c), o += b;
        else
            o += c;
    }
    return o;
}
inline void violate(const std::string &key, const std::string &detail)
{
    violations++;
    if (caught)
    {
        caught->emplace(key, detail);
        return;
    }
    if (++per_key[key] > 3)
        return;
    fprintf(out, "{\"t\":\"v\",\"key\":\"%s\",\"case\":%llu,\"seed\":%llu,\"mode\":\"%s\",\"detail\":\"%s\"}\n",
            esc(key).c_str(), (unsigned long long)cur_case, (unsigned long long)seed, esc(mode).c_str(),
            esc(detail.substr(0, 1500)).c_str());
    fflush(out);
}
inline void count(const std::string &k, uint64_t n = 1) { counters[k] += n; }
inline void note(const std::string &k, const std::string &v)
{
    auto &s = seen[k];
    if (s.size() < 4000)
        s.insert(v);
}
inline void sample(const std::string &s)
{
    if (samples.size() < 3)
        samples.push_back(s.substr(0, 400));
}
inline uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 0x100000001b3ull + (h >> 29); }
inline uint64_t hashs(const std::string &s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
inline void sig(uint64_t s) { sigs.push_back(s); }
inline void on_cpu(int)
{
    const char m[] = "\nHARNESS-CPU-LIMIT\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(77);
}
inline void dump()
{
    for (auto &c : counters)
        fprintf(out, "{\"t\":\"c\",\"k\":\"%s\",\"n\":%llu}\n", esc(c.first).c_str(), (unsigned long long)c.second);
    for (auto &c : seen)
        for (auto &v : c.second)
            fprintf(out, "{\"t\":\"s\",\"k\":\"%s\",\"v\":\"%s\"}\n", esc(c.first).c_str(), esc(v).c_str());
    for (auto &s : samples)
        fprintf(out, "{\"t\":\"e\",\"v\":\"%s\"}\n", esc(s).c_str());
    for (auto s : sigs)
        fprintf(out, "{\"t\":\"g\",\"v\":\"%016llx\"}\n", (unsigned long long)s);
}
} // namespace H

#define EXPECT(cond, key, msg)                                                                                         \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
        {                                                                                                              \
            std::ostringstream ss_;                                                                                    \
            ss_.precision(17);                                                                                         \
            ss_ << msg;                                                                                                \
            H::violate(key, ss_.str());                                                                                \
        }                                                                                                              \
    } while (0)

// Runs f; returns true if it threw a std::exception (message in `what`)
template <typename F> bool throws(F &&f, std::string *what = nullptr)
{
    try
    {
        f();
        return false;
    }
    catch (const std::exception &e)
    {
        if (what)
            *what = e.what();
        return true;
    }
}

void run_case(uint64_t n, Rng &r);
__attribute__((weak)) void once_begin();
__attribute__((weak)) void once_end();

int main(int argc, char **argv)
{
    uint64_t first = 0, stride = 1, cnt = 1;
    std::string outp = "/dev/stdout", prog;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") H::seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--first") first = strtoull(v.c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if (a == "--count") cnt = strtoull(v.c_str(), 0, 10);
        else if (a == "--out") outp = v;
        else if (a == "--progress") prog = v;
        else if (a == "--mode") H::mode = v;
        else if (a == "--tier") H::thorough = v == "thorough";
        else if (a == "--tmp") H::tmpdir = v;
        else if (a == "--cpu") H::cpu_limit = atoi(v.c_str());
        else if (a == "--verbose") H::verbose = v == "1";
    }
    if (!H::verbose)
    {
        // the library prints warnings to stdout; keep the harness's own channel separate
        std::cout.setstate(std::ios::failbit);
    }
    H::out = fopen(outp.c_str(), "a");
    if (!H::out)
        return 3;
    if (!prog.empty())
        H::progress_fd = open(prog.c_str(), O_CREAT | O_WRONLY, 0644);
    signal(SIGPROF, H::on_cpu);
    if (once_begin)
        once_begin();
    uint64_t done = 0;
    for (uint64_t n = first; n < cnt; n += stride)
    {
        H::cur_case = n;
        if (H::progress_fd >= 0)
            (void)!pwrite(H::progress_fd, &n, 8, 0);
        struct itimerval it = {};
        it.it_value.tv_sec = H::cpu_limit;
        setitimer(ITIMER_PROF, &it, nullptr);
        Rng r(H::mix(H::hashs(H::mode, H::seed * 7919 + 17), n + 1));
        try
        {
            run_case(n, r);
        }
        catch (const std::exception &e)
        {
            H::violate("unexpected-exception", std::string("valid operation threw: ") + e.what());
        }
        done++;
    }
    struct itimerval it = {};
    setitimer(ITIMER_PROF, &it, nullptr);
    if (once_end)
        once_end();
    H::dump();
    fprintf(H::out, "{\"t\":\"d\",\"n\":%llu}\n", (unsigned long long)done);
    fclose(H::out);
    return 0;
}
