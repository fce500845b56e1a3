// Shared by the falsifiers: bounded search for an input on which the code
// compiled from /repo breaks the property's statement.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <random>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <sys/time.h>

using i128 = __int128;
using ll = long long;
static char g_cur[65536] = "(start-up)";
static long long g_n = 0;
static bool g_thorough = false;
static std::mt19937_64 g_rng;
static std::vector<ll> g_hints;
static std::chrono::steady_clock::time_point g_end;

static void cur(const std::string & s) { std::snprintf(g_cur, sizeof g_cur, "%s", s.c_str()); ++g_n; }
__attribute__((format(printf, 1, 2))) static void curf(const char * f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(g_cur, sizeof g_cur, f, ap);
    va_end(ap);
    ++g_n;
}
[[noreturn]] __attribute__((format(printf, 1, 2))) static void fail(const char * f, ...)
{
    std::printf("EVALUATIONS %lld\nFAIL: %s: ", g_n, g_cur);
    va_list ap;
    va_start(ap, f);
    std::vprintf(f, ap);
    va_end(ap);
    std::printf("\n");
    std::fflush(stdout);
    _exit(1);
}
static std::string s128(i128 x)
{
    if (x == 0) return "0";
    bool n = x < 0;
    unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x;
    std::string r;
    while (u) { r.insert(r.begin(), char('0' + int(u % 10))); u /= 10; }
    return n ? "-" + r : r;
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void died()
{
    std::printf("EVALUATIONS %lld\nFAIL: %s: undefined behaviour, memory error or abort (see the sanitizer's report)\n", g_n, g_cur);
    std::fflush(stdout);
}
static void on_abort(int)
{
    died();
    _exit(1);
}
static long long g_last = -1;
static void on_alarm(int)
{
    if (g_last == g_n) {
        std::printf("EVALUATIONS %lld\nFAIL: %s: no result after 20 s of processor time\n", g_n, g_cur);
        std::fflush(stdout);
        _exit(1);
    }
    g_last = g_n;
}
static bool time_left() { return std::chrono::steady_clock::now() < g_end; }
static void start(int argc, char ** argv)
{
    std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    g_thorough = argc > 1 && ! std::strcmp(argv[1], "thorough");
    g_rng.seed(argc > 2 ? std::strtoull(argv[2], 0, 10) : 1);
    if (argc > 3) {
        std::ifstream f(argv[3]);
        std::string l;
        while (f >> l) {
            errno = 0;
            ll v = std::strtoll(l.c_str(), 0, 10);
            if (errno == 0) g_hints.push_back(v);
        }
    }
    double limit = argc > 4 ? std::atof(argv[4]) : 60;
    g_end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long long)(limit * 1000));
    __sanitizer_set_death_callback(died);
    std::signal(SIGABRT, on_abort);
    std::signal(SIGPROF, on_alarm);
    itimerval tv{{20, 0}, {20, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
}
[[noreturn]] static void finish()
{
    std::printf("EVALUATIONS %lld\n", g_n);
    std::fflush(stdout);
    _exit(0);
}
static ll rnd(ll lo, ll hi) { return std::uniform_int_distribution<ll>(lo, hi)(g_rng); }
// values that stress 64-bit arithmetic
static std::vector<ll> pool(int random_count = 24)
{
    std::set<ll> s;
    const ll MX = INT64_MAX, MN = INT64_MIN;
    for (ll v = -5; v <= 5; ++v) s.insert(v);
    for (ll d = 0; d <= 2; ++d) { s.insert(MX - d); s.insert(MN + d); s.insert(MX / 2 + d); s.insert(MX / 2 - d); s.insert(MN / 2 + d); s.insert(MN / 2 - d); }
    for (int k : {8, 16, 31, 32, 33, 47, 61, 62})
        for (ll d = -1; d <= 1; ++d) { s.insert((1ll << k) + d); s.insert(-(1ll << k) + d); }
    for (ll d = -2; d <= 2; ++d) { s.insert(3037000499ll + d); s.insert(-3037000499ll + d); }
    for (ll h : g_hints)
        for (ll d = -1; d <= 1; ++d) {
            ll r;
            if (! __builtin_add_overflow(h, d, &r)) s.insert(r);
        }
    for (int i = 0; i < random_count; ++i) {
        int sh = (int)rnd(0, 62);
        s.insert((ll)(g_rng() >> sh) * (rnd(0, 1) ? 1 : -1));
    }
    return {s.begin(), s.end()};
}
static bool fits(i128 v) { return v >= INT64_MIN && v <= INT64_MAX; }
static i128 floor_div(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
static i128 ceil_div(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && ((a < 0) == (b < 0))) ? q + 1 : q; }
