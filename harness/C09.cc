#include "common.hh"
#include <gcs/restarts.hh>
using namespace gcs;

// reading far positions without advancing there one by one, where the schedule keeps a plain counter
static unsigned long long luby_at(unsigned long long i)
{
    for (;;) {
        int k = 64 - __builtin_clzll(i);
        if (i == (k == 64 ? ~0ull : (1ull << k) - 1)) return 1ull << (k - 1);
        i -= (1ull << (k - 1)) - 1;
    }
}
template <typename S_>
static void far(S_ s, unsigned long long scale)
{
    if constexpr (requires { s._index; requires std::is_integral_v<decltype(s._index)>; }) {
        std::vector<unsigned long long> at;
        for (int k = 1; k < 63; ++k)
            for (long long d = -3; d <= 3; ++d)
                if ((1ll << k) + d >= 1) at.push_back((1ll << k) + d);
        for (int i = 0; i < 20000; ++i) at.push_back((g_rng() >> 1 >> rnd(0, 61)) | 1);
        for (ll h : g_hints)
            if (h >= 1 && h < INT64_MAX) at.push_back(h);
        for (auto i : at) {
            if ((unsigned __int128)luby_at(i) * scale >> 64) continue;
            s._index = i;
            curf("cutoff %llu of the schedule with scale %llu (position set directly)", i, scale);
            auto c = s.current_cutoff();
            if (c != luby_at(i) * scale) fail("is %llu, should be %llu", c, luby_at(i) * scale);
            s.advance();
            curf("cutoff %llu of the schedule with scale %llu (position before it set directly)", i + 1, scale);
            if ((unsigned __int128)luby_at(i + 1) * scale >> 64) continue;
            c = s.current_cutoff();
            if (c != luby_at(i + 1) * scale) fail("is %llu, should be %llu", c, luby_at(i + 1) * scale);
        }
    }
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    std::vector<unsigned long long> scales{100, 1, 7, 0, 1ull << 40, 4294967296ull, 12345678901ull};
    for (size_t k = 0; k < scales.size(); ++k) {
        auto s = k == 0 ? RestartSchedule::luby() : RestartSchedule::luby(scales[k]);
        unsigned long long n = k == 1 ? (g_thorough ? 60000000 : 3000000) : k == 0 ? 1000000 : 100000;
        // Knuth's generator of the sequence: (u, v) -> (u & -u) == v ? (u + 1, 1) : (u, 2 v)
        long long u = 1, v = 1;
        for (unsigned long long i = 1; i <= n; ++i) {
            curf("cutoff %llu of the schedule with scale %llu", i, scales[k]);
            auto c = s.current_cutoff();
            if (i == 1 && s.current_cutoff() != c) fail("reading it changes it");
            if (c != (unsigned long long)v * scales[k]) fail("is %llu, should be %llu", c, v * scales[k]);
            if (i % 1000 == 0 && s.current_cutoff() != c) fail("asking twice gives different answers");
            auto t = s;
            t.advance();
            if (i % 1000 == 0 && s.current_cutoff() != c) fail("advancing a copy changes the original");
            s.advance();
            if ((u & -u) == v) ++u, v = 1;
            else v *= 2;
        }
    }
    for (unsigned long long sc : {1ull, 100ull, 12345ull, 0ull}) far(RestartSchedule::luby(sc), sc);
    finish();
}
