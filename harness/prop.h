// Shared by the bounded drivers: a seeded generator, a trace of what was done, and checks tagged with a property.
#pragma once
#include "sim.h"
#include <cstdarg>
#include <cstdint>
#include <csignal>
#include <chrono>
#include <cstring>
#include <unistd.h>
#include <set>
#include <map>
#include <deque>
#include <memory>

namespace prop {
struct rng_t {
    std::uint64_t s;
    explicit rng_t(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 12345) {}
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : int(next() % (std::uint64_t)n); }
    bool chance(int percent) { return below(100) < percent; }
    template <typename C> auto &pick(C &c) { return c[below((int)c.size())]; }
};

inline std::string &trace() { static std::string t; return t; }
inline std::string &only() { static std::string t; return t; }
inline long &evaluations() { static long n = 0; return n; }
inline void note(const char *fmt, ...) {
    char b[400];
    va_list a;
    va_start(a, fmt);
    std::vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    trace() += b;
    trace() += '\n';
    static bool live = std::getenv("LIVE");
    if (live) std::fprintf(stderr, "%s\n", b);
}
inline void dump(const char *what) {
    std::string o = std::string("FAILED: ") + what + "\nwhat was done:\n";
    if (trace().size() > 6000) o += "  ...\n" + trace().substr(trace().size() - 6000);
    else o += trace();
    (void)!write(1, o.data(), o.size());
}
inline void on_signal(int sig) {
    char b[80];
    std::snprintf(b, sizeof b, "the library crashed or an assertion of it failed (signal %d)", sig);
    dump(sig == SIGALRM ? "a history does not come to an end" : b);
    std::_Exit(1);
}
inline void bad(const char *p, const char *fmt, ...) {
    if (!only().empty() && std::strstr(p, only().c_str()) == nullptr) return;
    char b[400];
    va_list a;
    va_start(a, fmt);
    std::vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    dump((std::string("[") + p + "] " + b).c_str());
    std::_Exit(1);
}
// p: the properties (blank separated) that a violation concerns
#define REQ(p, cond, ...) do { ++prop::evaluations(); if (!(cond)) prop::bad(p, __VA_ARGS__); } while (0)

// driver PROPERTY SEED SECONDS: runs histories until the time is used up
template <typename F> int run(int argc, char **argv, F &&history, int max = 1 << 30) {
    only() = argc > 1 ? argv[1] : "";
    std::uint64_t seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
    double secs = argc > 3 ? std::atof(argv[3]) : 5;
    long one = argc > 4 ? std::atol(argv[4]) : -1;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) std::signal(s, on_signal);
    auto t0 = std::chrono::steady_clock::now();
    long n = 0;
    for (;; ++n) {
        if (one >= 0 && n != one) { if (n > one) break; continue; }
        trace() = "seed " + std::to_string(seed) + " history " + std::to_string(n) + "\n";
        alarm(100);
        rng_t rng(seed * 1000003ull + (std::uint64_t)n);
        history(rng, n);
        if (n + 1 >= max || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) { ++n; break; }
    }
    std::printf("OK histories=%ld checks=%ld\n", n, evaluations());
    std::fflush(stdout);
    std::_Exit(0);
}
} // namespace prop
